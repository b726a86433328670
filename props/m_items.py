"""Items: outcomes of requests, encoding of commands, decoding of answers, events."""
import datetime

from pyown.client import Client, SessionType
from pyown.exceptions import InvalidSession, InvalidTag, OWNException, ResponseError
from pyown.items.automation import Automation, WhatAutomation
from pyown.items.camera import Camera, WhatCamera
from pyown.items.energy import EnergyManagement, StopGo, TypeEnergy
from pyown.items.gateway import Gateway, GatewayModel, WhatGateway
from pyown.items.lighting import Dimmer, Light
from pyown.tags import Where

from props.common import ACK, NACK, DIGITS, connect, outcome, read_all, reply_with, tag_text, well_formed


def answer(tr, *texts):
    reply_with(tr, [t if isinstance(t, bytes) else t.encode() for t in texts])


async def collect(gen):
    return [x async for x in gen]


# ------------------------------------------------------------------ P14
CALLS = {
    "turn_on": (lambda c, w: Light(c, w).turn_on(), "*1*1*{}##"),
    "automation": (lambda c, w: Automation(c, w).down(), "*2*2*{}##"),
    "camera": (lambda c, w: Camera(c, w).zoom_in(), "*7*120##"),
    "hsv": (lambda c, w: Dimmer(c, w).set_hsv(10, 20, 30), "*#1*{}*#12*10*20*30##"),
    "set_time": (lambda c, w: Gateway(c).set_time(datetime.time(1, 2, 3, tzinfo=datetime.timezone.utc)),
                 "*#13**#0*01*02*03*000##"),
}


def command_outcome(ctx, call, n):
    """a command and any answer"""
    lp, c, tr = connect(ctx)
    w = ctx.digits("w", 2)
    r = well_formed(ctx, n, "r")
    answer(tr, r)
    f, text = CALLS[call]
    k, v = outcome(lp.drive(f(c, w)))
    ctx.check(len(tr.sent) == 1 and tr.sent[0] == text.format(w).encode(), "the command is sent once")
    if r == "*#*1##":
        ctx.check(k == "value", "an acknowledged command succeeds")
        ctx.reach("acknowledged")
    else:
        ctx.check(k == "error" and isinstance(v, ResponseError), "any other answer raises ResponseError")
        ctx.reach("not acknowledged")
    more, _ = read_all(lp, c)
    ctx.check(len(more) == 0, "the answer is consumed")


def command_silence(ctx, call):
    lp, c, tr = connect(ctx)
    late = ctx.choice("late", [None, 1, 4, 6])
    if late is not None:
        tr.on_write = lambda d: lp.call_later(late, tr.feed, ACK)
    f, text = CALLS[call]
    k, v = outcome(lp.drive(f(c, "12")))
    if late in (1, 4):
        ctx.check(k == "value", "an answer within five seconds is awaited")
        ctx.reach("late answer")
    else:
        ctx.check(k == "error" and isinstance(v, TimeoutError), "a command nobody answers raises TimeoutError")
        ctx.reach("silence")


# frames of every kind, with symbolic digits in place of {}
OTHER = {"generic": "*99*{}*2##", "generic short": "*#{}##", "normal": "*1*{}*12##", "status": "*#1*{}##", "dimension": "*#1*12*{}##",
         "writing": "*#1*12*#1*{}##", "writing long": "*#13**#0*{}*1*2*3##", "response": "*#1*12*1*{}##", "nack": "*#*0##"}


def command_kinds(ctx, call, n):
    """a command answered by a message of any other kind, or by one before its ACK"""
    lp, c, tr = connect(ctx)
    kind = ctx.choice("kind", list(OTHER))
    r = OTHER[kind].format(ctx.digits("d", n))
    if ctx.flag("then ack"):
        answer(tr, r, ACK)
    else:
        answer(tr, r)
    f, text = CALLS[call]
    k, v = outcome(lp.drive(f(c, "12")))
    ctx.check(len(tr.sent) == 1 and tr.sent[0] == text.format("12").encode(), "the command is sent once")
    ctx.check(k == "error" and isinstance(v, ResponseError), "any answer but ACK raises ResponseError")
    ctx.reach("answered by another kind")


def request_kinds(ctx, request, count, n):
    """a request whose answers are followed by a message of another kind"""
    lp, c, tr = connect(ctx)
    own = {"status": ("*1*1*12##", ("normal",)), "dimension": ("*#1*12*1*50*7##", ("response",)),
           "single": ("*#18*51*113*50##", ("response",))}[request]
    kind = ctx.choice("kind", [k for k in OTHER if k not in own[1]])
    r = OTHER[kind].format(ctx.digits("d", n))
    more = ctx.choice("more", ["nothing", "ack", "answer and ack"])
    answer(tr, *[own[0]] * count, r, *{"nothing": [], "ack": [ACK], "answer and ack": [own[0], ACK]}[more])
    got = []

    async def run():
        if request == "single":
            got.append(await EnergyManagement(c, "51").get_active_power())
            return
        async for x in Light(c, "12").get_status() if request == "status" else Dimmer(c, "12").request_current_brightness_speed():
            got.append(x)
    k, v = outcome(lp.drive(run()))
    ctx.check(k == "error" and isinstance(v, ResponseError), "a message of another kind before the ACK raises ResponseError")
    ctx.check(len(got) == (0 if request == "single" else count), "after the answers before it")
    ctx.reach("request ended by another kind")


def status_request(ctx, count, end):
    """a status request: any number of statuses, then the end"""
    lp, c, tr = connect(ctx)
    w = ctx.digits("w", 1)
    st = [(ctx.digits(f"v{i}", 1), ctx.digits(f"a{i}", 2)) for i in range(count)]
    for v, _ in st:
        ctx.assume(ctx.any_of([v == "0", v == "1"]))
    fr = ["*1*" + v + "*" + a + "##" for v, a in st]
    if end == "other":
        e = "*#1*12*1*100*1##"
    else:
        e = {"ack": ACK, "nack": NACK}[end]
    answer(tr, *fr, e)
    got = []

    async def run():
        async for x in Light(c, w).get_status():
            got.append(x)
    k, v = outcome(lp.drive(run()))
    ctx.check(tr.sent == [("*#1*" + w + "##").encode()], "one status request is sent")
    ctx.check(len(got) == count, "every status before the end is yielded")
    ctx.check(ctx.all_of([ctx.all_of([g[0].string == a, ctx.iff(g[1], x == "1")]) for g, (x, a) in zip(got, st)]),
              "with its own address and value, in order")
    if end == "ack":
        ctx.check(k == "value", "an ACK ends the statuses")
        answer(tr, ACK)
        k, v = outcome(lp.drive(Light(c, w).turn_off()))
        ctx.check(k == "value", "and the next command gets its own answer")
    else:
        ctx.check(k == "error" and isinstance(v, ResponseError), "anything else raises ResponseError")
    ctx.reach("statuses " + end)


def dimension_request(ctx, count, end, packed):
    lp, c, tr = connect(ctx)
    w = ctx.digits("w", 2)
    st = [(ctx.digits(f"a{i}", 2), ctx.digits(f"l{i}", 3), ctx.digits(f"s{i}", 2)) for i in range(count)]
    fr = [f"*#1*{a}*1*{l}*{s}##" for a, l, s in st]
    e = {"ack": "*#*1##", "nack": "*#*0##", "other": "*1*1*12##"}[end]
    if packed:
        answer(tr, "".join(fr) + e)
    else:
        answer(tr, *fr, e)
    got = []

    async def run():
        async for x in Dimmer(c, w).request_current_brightness_speed():
            got.append(x)
    k, v = outcome(lp.drive(run()))
    ctx.check(tr.sent == [f"*#1*{w}*1##".encode()], "one dimension request is sent")
    ctx.check(len(got) == count, "every answer before the end is yielded")
    ctx.check(ctx.all_of([ctx.all_of([g[0].string == a, g[1] == int(l), g[2] == int(s)]) for g, (a, l, s) in zip(got, st)]),
              "with its own address and values, in order")
    ctx.check(k == "value" if end == "ack" else k == "error" and isinstance(v, ResponseError), "ended as answered")
    ctx.reach("dimensions " + end)


def slow_answers(ctx, kind, count, end):
    """the answers of a request come one by one, each within five seconds of the one before"""
    lp, c, tr = connect(ctx)
    gaps = [ctx.choice(f"g{i}", [1, 4]) for i in range(count + 1)]
    vs = [ctx.text(f"v{i}", 1, "01") for i in range(count)]

    def on_write(data):
        tr.on_write = None
        at = 0
        for g, v in zip(gaps, vs):
            at += g
            lp.call_later(at, tr.feed, (f"*1*{v}*1{v}##" if kind == "status" else f"*#1*12*1*10{v}*{v}##").encode())
        if end != "silent":
            lp.call_later(at + gaps[-1], tr.feed, {"ack": ACK, "nack": NACK}[end])
    tr.on_write = on_write
    got = []

    async def run():
        gen = Light(c, "12").get_status() if kind == "status" else Dimmer(c, "12").request_current_brightness_speed()
        async for x in gen:
            got.append(x)
    k, v = outcome(lp.drive(run()))
    ctx.check(len(got) == count, "every answer within five seconds of the one before is yielded")
    if kind == "status":
        ctx.check(ctx.all_of([ctx.iff(g[1], x == "1") for g, x in zip(got, vs)]), "with its value, in order")
    else:
        ctx.check(ctx.all_of([ctx.all_of([g[1] == 100 + int(x), g[2] == int(x)]) for g, x in zip(got, vs)]), "with its values")
    if end == "ack":
        ctx.check(k == "value", "the request ends with the ACK")
    else:
        ctx.check(k == "error" and isinstance(v, ResponseError if end == "nack" else TimeoutError),
                  "a NACK raises ResponseError, silence TimeoutError")
    ctx.reach("slow " + end)


def many_answers(ctx, kind, k):
    lp, c, tr = connect(ctx)
    n = max(1, k // 10)
    a = [ctx.digits(f"a{i}", 2) if i % n == 0 else str(11 + i % 80) for i in range(k)]
    if kind == "status":
        fr = [f"*1*{i % 2}*{x}##" for i, x in enumerate(a)]
    else:
        fr = [f"*#1*{x}*1*{100 + i % 100}*{i % 7}##" for i, x in enumerate(a)]
    answer(tr, "".join(fr) + "*#*1##")
    got = []

    async def run():
        async for x in Light(c, "0").get_status() if kind == "status" else Dimmer(c, "0").request_current_brightness_speed():
            got.append(x)
    r, v = outcome(lp.drive(run()))
    ctx.check(r == "value" and len(got) == k, "every answer of a long list is yielded")
    ctx.check(ctx.all_of([g[0].string == x for g, x in zip(got, a)]), "with its own address, in order")
    if kind == "status":
        ctx.check(all(g[1] == (i % 2 == 1) for i, g in enumerate(got)), "and its own value")
    else:
        ctx.check(all(g[1] == 100 + i % 100 and g[2] == i % 7 for i, g in enumerate(got)), "and its own values")
    answer(tr, ACK)
    r, v = outcome(lp.drive(Light(c, "12").turn_off()))
    ctx.check(r == "value", "the next command gets its own answer")
    ctx.reach("many answers")


def single_request(ctx, count):
    """a request for one value: the answers are consumed up to the ACK"""
    lp, c, tr = connect(ctx)
    vs = [ctx.digits(f"v{i}", 3) for i in range(count)]
    answer(tr, *[f"*#18*51*113*{v}##" for v in vs], ACK)
    k, v = outcome(lp.drive(EnergyManagement(c, "51").get_active_power()))
    if count == 0:
        ctx.check(k == "error" and isinstance(v, ResponseError), "no data is an error")
    else:
        ctx.check(k == "value" and v == int(vs[0]), "the first answer is the value")
    more, _ = read_all(lp, c)
    ctx.check(len(more) == 0, "every answer is consumed")
    answer(tr, "*#18*51*51*7##", ACK)
    k, v = outcome(lp.drive(EnergyManagement(c, "51").get_energy_unit_totalizer()))
    ctx.check(k == "value" and v == 7, "the next request gets its own answer")
    ctx.reach("single")


def p14(tier):
    q = tier == "quick"
    for call in CALLS:
        for n in (6, 7) if q else (4, 5, 6, 7, 8, 9, 10):
            yield "command_outcome", {"call": call, "n": n}
        yield "command_silence", {"call": call}
        for n in (1, 3) if q else (1, 2, 3, 5):
            yield "command_kinds", {"call": call, "n": n}
    for r in ("status", "dimension", "single"):
        for k in range(0, 2 if q else 4):
            for n in (1, 3) if q else (1, 2, 3, 5):
                yield "request_kinds", {"request": r, "count": k, "n": n}
    for n in (3, 4, 5, 8):
        yield "command_outcome", {"call": "turn_on", "n": n}
    for end in ("ack", "nack", "other"):
        for k in range(0, 3 if q else 5):
            yield "status_request", {"count": k, "end": end}
        for k in range(0, 3 if q else 4):
            yield "dimension_request", {"count": k, "end": end, "packed": k % 2 == 0}
    for k in range(0, 3):
        yield "single_request", {"count": k}
    for kind in ("status", "dimension"):
        for end in ("ack", "nack", "silent"):
            yield "slow_answers", {"kind": kind, "count": 2 if q else 4, "end": end}
        yield "many_answers", {"kind": kind, "k": 150 if q else 1000}


# ------------------------------------------------------------------ P15
def sends(ctx, make, expect, ok):
    """the call sends exactly `expect` when ok, else raises and sends nothing"""
    lp, c, tr = connect(ctx)
    answer(tr, ACK)
    k, v = outcome(lp.drive(make(c)))
    if ok:
        ctx.check(k == "value", "a command in range is accepted")
        ctx.check(len(tr.sent) == 1, "and sent once")
        ctx.observe("sent", tr.sent[0])
        ctx.check(tr.sent[0] == expect().encode(), "as the documented frame")
        ctx.reach("sent")
    else:
        ctx.check(k == "error" and isinstance(v, (ValueError, OWNException)), "a command out of range is refused")
        ctx.check(not isinstance(v, ResponseError) and len(tr.sent) == 0, "and nothing is sent")
        ctx.reach("refused")


PLAIN = {
    "Light": (Light, "1", {
        "turn_on": 1, "turn_off": 0, "turn_on_1_min": 11, "turn_on_2_min": 12, "turn_on_3_min": 13, "turn_on_4_min": 14,
        "turn_on_5_min": 15, "turn_on_15_min": 16, "turn_on_30_min": 17, "turn_on_0_5_sec": 18, "blink_0_5_sec": 20,
        "blink_1_0_sec": 21, "blink_1_5_sec": 22, "blink_2_0_sec": 23, "blink_2_5_sec": 24, "blink_3_0_sec": 25,
        "blink_3_5_sec": 26, "blink_4_0_sec": 27, "blink_4_5_sec": 28, "blink_5_0_sec": 29}),
    "Dimmer": (Dimmer, "1", {
        "turn_on": 1, "turn_off": 0, "turn_on_1_min": 11, "turn_on_2_min": 12, "turn_on_3_min": 13, "turn_on_4_min": 14,
        "turn_on_5_min": 15, "turn_on_15_min": 16, "turn_on_30_min": 17, "turn_on_0_5_sec": 18, "set_20_percent": 2,
        "set_30_percent": 3, "set_40_percent": 4, "set_50_percent": 5, "set_60_percent": 6, "set_70_percent": 7,
        "set_80_percent": 8, "set_90_percent": 9, "set_100_percent": 10, "up_percent": 30, "down_percent": 31}),
    "Automation": (Automation, "2", {"stop": 0, "up": 1, "down": 2}),
    "Camera": (Camera, "7", {"receive_video": 0}),
    "Energy": (EnergyManagement, "18", {"enable_actuator": 71, "force_actuator_on": 73, "force_actuator_off": 74}),
    "StopGo": (StopGo, "18", {"enable_automatic_reset": 26, "disable_automatic_reset": 27}),
}
NOWHERE = {"free_resources": 9, "zoom_in": 120, "zoom_out": 121, "increase_x_coordinate": 130, "decrease_x_coordinate": 131,
           "increase_y_coordinate": 140, "decrease_y_coordinate": 141, "increase_luminosity": 150,
           "decrease_luminosity": 151, "increase_contrast": 160, "decrease_contrast": 161, "increase_color": 170,
           "decrease_color": 171, "increase_quality": 180, "decrease_quality": 181}


def address(ctx, family, n):
    if family == "Energy":
        return "7" + ctx.digits("w", n - 1) + "#0"
    if family == "StopGo":
        return "1" + ctx.digits("w", n - 1)
    return tag_text(ctx, "w", n)


def plain_command(ctx, family, n):
    cls, who, table = PLAIN[family]
    name = ctx.choice("method", list(table))
    w = address(ctx, family, n)
    sends(ctx, lambda c: getattr(cls(c, w), name)(), lambda: f"*{who}*{table[name]}*{w}##", True)


def camera_command(ctx):
    name = ctx.choice("method", list(NOWHERE))
    w = ctx.digits("w", 2)
    sends(ctx, lambda c: getattr(Camera(c, w), name)(), lambda: f"*7*{NOWHERE[name]}##", True)


def dial(ctx):
    x, y = ctx.int("x", -20, 100), ctx.int("y", -20, 100)
    ok = ctx.all_of([x >= 1, x <= 4, y >= 1, y <= 4])
    sends(ctx, lambda c: Camera(c, "1").display_dial(x, y), lambda: f"*7*3{x}{y}##", bool(ok))


def switch_speed(ctx, on):
    s = ctx.int("s", -1000, 100000)
    w = ctx.digits("w", 2)
    ok = bool(ctx.all_of([s >= 0, s <= 255]))
    sends(ctx, lambda c: Dimmer(c, w).turn_on(s) if on else Dimmer(c, w).turn_off(speed=s),
          lambda: f"*1*{1 if on else 0}#{s}*{w}##", ok)


def percent(ctx, up, form):
    w = ctx.digits("w", 2)
    v = ctx.int("v", -1000, 10000)
    s = ctx.int("s", -1000, 10000)
    what = 30 if up else 31

    def call(c):
        d = Dimmer(c, w)
        f = d.up_percent if up else d.down_percent
        if form == "value":
            return f(v)
        if form == "speed":
            return f(speed=s)
        return f(v, s)
    okv, oks = ctx.all_of([v >= 0, v <= 100]), ctx.all_of([s >= 0, s <= 255])
    if form == "value":
        sends(ctx, call, lambda: f"*1*{what}#{v}*{w}##", bool(okv))
    elif form == "speed":
        sends(ctx, call, lambda: f"*1*{what}#1#{s}*{w}##", bool(oks))
    else:
        sends(ctx, call, lambda: f"*1*{what}#{v}#{s}*{w}##", bool(ctx.all_of([okv, oks])))


def hsv(ctx):
    h, s, v = ctx.int("h", -1000, 10000), ctx.int("s", -1000, 10000), ctx.int("v", -1000, 10000)
    ok = bool(ctx.all_of([h >= 0, h <= 359, s >= 0, s <= 100, v >= 0, v <= 100]))
    sends(ctx, lambda c: Dimmer(c, "12").set_hsv(h, s, v), lambda: f"*#1*12*#12*{h}*{s}*{v}##", ok)


def white(ctx):
    t = ctx.int("t", -1000, 1000000)
    sends(ctx, lambda c: Dimmer(c, "12").set_white_temperature(t), lambda: f"*#1*12*#14*{t}##",
          bool(ctx.all_of([t >= 1, t <= 65534])))


def brightness(ctx):
    b, s = ctx.int("b", -100, 10000), ctx.int("s", -100, 10000)
    sends(ctx, lambda c: Dimmer(c, "12").set_brightness_with_speed(b, s), lambda: f"*#1*12*#1*{b}*{s}##",
          bool(ctx.all_of([b >= 0, s >= 0])))


def brightness_text(ctx, n):
    """levels and speeds given as text are sent as they are"""
    b, s = ctx.digits("b", n), ctx.digits("s", n)
    sends(ctx, lambda c: Dimmer(c, "12").set_brightness_with_speed(b, s), lambda: f"*#1*12*#1*{b}*{s}##", True)


def temporize(ctx):
    h, m, s = ctx.int("h", -100, 1000), ctx.int("m", -100, 1000), ctx.int("s", -100, 1000)
    ok = bool(ctx.all_of([h >= 0, h <= 23, m >= 0, m <= 59, s >= 0, s <= 59]))
    sends(ctx, lambda c: Light(c, "12").temporization_command(h, m, s), lambda: f"*#1*12*#2*{h}*{m}*{s}##", ok)


def energy_command(ctx, call):
    w = "7" + ctx.digits("w", 1) + "#0"
    day, month, n = ctx.int("day", 1, 31), ctx.int("month", 1, 12), ctx.int("n", 1, 254)
    tot = ctx.int("tot", 1, 2)
    t = {
        "daily": (lambda e: e.start_sending_daily_totalizers_hourly(day, month), lambda: f"*18*57#{month}#{day}*{w}##"),
        "monthly": (lambda e: e.start_sending_monthly_average_hourly(month), lambda: f"*18*58#{month}*{w}##"),
        "year": (lambda e: e.start_sending_monthly_totalizers_current_year(month), lambda: f"*18*59#{month}*{w}##"),
        "last year": (lambda e: e.start_sending_monthly_totalizers_last_year(month), lambda: f"*18*510#{month}*{w}##"),
        "force": (lambda e: e.force_actuator_on(n), lambda: f"*18*73#{n}*{w}##"),
        "reset": (lambda e: e.reset_totalizers(tot), lambda: f"*18*75#{tot}*{w}##"),
        "instant": (lambda e: e.start_sending_instant_power(n), lambda: f"*#18*{w}*#1200#1*{n}##"),
        "instant type": (lambda e: e.start_sending_instant_power(n, tot), lambda: f"*#18*{w}*#1200#{tot}*{n}##"),
        "stop": (lambda e: e.stop_sending_instant_power(), lambda: f"*#18*{w}*#1200#1*0##"),
    }[call]
    sends(ctx, lambda c: t[0](EnergyManagement(c, w)), t[1], True)


def energy_defaults(ctx, call):
    """the current date stands in for missing arguments"""
    y, mo, d = ctx.int("y", 2000, 2099), ctx.int("mo", 1, 12), ctx.int("d", 1, 28)
    ctx.set_now(y, mo, d, 10, 30, 0)
    w = "51"
    t = {
        "daily": (lambda e: e.start_sending_daily_totalizers_hourly(None, None), lambda: f"*18*57#{mo}#{d}*{w}##"),
        "daily month": (lambda e: e.start_sending_daily_totalizers_hourly(None, 3), lambda: f"*18*57#3#{d}*{w}##"),
        "daily day": (lambda e: e.start_sending_daily_totalizers_hourly(4, None), lambda: f"*18*57#{mo}#4*{w}##"),
        "monthly": (lambda e: e.start_sending_monthly_average_hourly(None), lambda: f"*18*58#{mo}*{w}##"),
        "year": (lambda e: e.start_sending_monthly_totalizers_current_year(None), lambda: f"*18*59#{mo}*{w}##"),
        "last year": (lambda e: e.start_sending_monthly_totalizers_last_year(None), lambda: f"*18*510#{mo}*{w}##"),
    }[call]
    sends(ctx, lambda c: t[0](EnergyManagement(c, w)), t[1], True)


def command_sequence(ctx, k):
    """commands one after the other, on several items of one client: each sends its own frame"""
    lp, c, tr = connect(ctx)
    w = [ctx.digits("w0", 2), ctx.digits("w1", 2)]
    lights = [Dimmer(c, x) for x in w]
    meters = [EnergyManagement(c, "7" + x + "#0") for x in w]
    sent = 0
    for i in range(k):
        j = ctx.choice(f"item{i}", [0, 1])
        n = ctx.int(f"n{i}", 1, 12)
        call, want = ctx.choice(f"call{i}", [
            (lambda: lights[j].turn_on(), f"*1*1*{w[j]}##"),
            (lambda: lights[j].turn_on(n), f"*1*1#{n}*{w[j]}##"),
            (lambda: lights[j].up_percent(n), f"*1*30#{n}*{w[j]}##"),
            (lambda: lights[j].set_hsv(n, n + 1, n + 2), f"*#1*{w[j]}*#12*{n}*{n + 1}*{n + 2}##"),
            (lambda: meters[j].start_sending_monthly_average_hourly(n), f"*18*58#{n}*7{w[j]}#0##"),
            (lambda: meters[j].start_sending_instant_power(n), f"*#18*7{w[j]}#0*#1200#1*{n}##"),
            (lambda: meters[j].force_actuator_on(), f"*18*73*7{w[j]}#0##"),
        ])
        answer(tr, ACK)
        r, v = outcome(lp.drive(call()))
        sent += 1
        ctx.check(r == "value" and len(tr.sent) == sent, "each command sends one frame")
        ctx.check(tr.sent[-1] == want.encode(), "the documented one, with its own arguments")
    ctx.reach("sequence")


def p15(tier):
    q = tier == "quick"
    yield "command_sequence", {"k": 2 if q else 3}
    for fam in PLAIN:
        for n in (2, 3) if q else (2, 3, 4, 5):
            yield "plain_command", {"family": fam, "n": n}
    yield "camera_command", {}
    yield "dial", {}
    for on in (True, False):
        yield "switch_speed", {"on": on}
        for form in ("value", "speed", "both"):
            yield "percent", {"up": on, "form": form}
    for f in ("hsv", "white", "brightness", "temporize"):
        yield f, {}
    for call in ("daily", "monthly", "year", "last year", "force", "reset", "instant", "instant type", "stop"):
        yield "energy_command", {"call": call}
    for call in ("daily", "daily month", "daily day", "monthly", "year", "last year"):
        yield "energy_defaults", {"call": call}
    yield "per_month_now", {}
    for n in (1, 3) if q else (1, 2, 3, 4, 5):
        yield "brightness_text", {"n": n}


# ------------------------------------------------------------------ repeated readings (P16, P17, P18)
def reading(ctx, which, i, at):
    """(class, address, request, answer, call, check) of one reading with symbolic values"""
    T = lambda name, n: ctx.digits(f"{name}{i}", n)
    if which in ("time", "datetime"):
        h, m = ctx.int(f"h{i}", 0, 23), ctx.int(f"m{i}", 0, 59)
        d = ctx.int(f"d{i}", 1, 28)
        if which == "time":
            ans, call = f"*#13**0*{h:02d}*{m:02d}*07*002##", lambda g: g.get_time()
            ok = lambda v: [v.hour == h, v.minute == m, v.second == 7, v.utcoffset() == datetime.timedelta(hours=2)]
        else:
            ans, call = f"*#13**22*{h:02d}*{m:02d}*07*101*01*{d:02d}*03*2024##", lambda g: g.get_datetime()
            ok = lambda v: [v.hour == h, v.minute == m, v.second == 7, v.day == d, v.month == 3, v.year == 2024,
                            v.utcoffset() == -datetime.timedelta(hours=1)]
        return Gateway, "", f"*#13**{'0' if which == 'time' else '22'}##", ans, call, ok
    if which == "date":
        y, mo, d = ctx.int(f"y{i}", 2000, 2099), ctx.int(f"mo{i}", 1, 12), ctx.int(f"d{i}", 1, 28)
        return (Gateway, "", "*#13**1##", f"*#13**1*01*{d:02d}*{mo:02d}*{y}##", lambda g: g.get_date(),
                lambda v: [v.year == y, v.month == mo, v.day == d])
    if which in ("ip", "netmask"):
        o = [T("o", 1), T("p", 1)]
        n = "10" if which == "ip" else "11"
        return (Gateway, "", f"*#13**{n}##", f"*#13**{n}*{o[0]}*1*2*{o[1]}##",
                (lambda g: g.get_ip()) if which == "ip" else (lambda g: g.get_netmask()),
                lambda v: [str(v) == f"{int(o[0])}.1.2.{int(o[1])}"])
    if which == "mac":
        o = [T("o", 1), T("p", 1)]
        return (Gateway, "", "*#13**12##", f"*#13**12*{o[0]}*0*0*0*0*{o[1]}##", lambda g: g.get_macaddress(),
                lambda v: [int(v[:2], 16) == int(o[0]), int(v[-2:], 16) == int(o[1]), v[2:-2] == ":00:00:00:00:"])
    if which == "model":
        k = ctx.choice(f"k{i}", ["2", "200"])
        return Gateway, "", "*#13**15##", f"*#13**15*{k}##", lambda g: g.get_model(), lambda v: [v.value == k]
    if which in ("16", "23", "24"):
        r = [T("r", 1), T("s", 1)]
        call = {"16": lambda g: g.get_firmware(), "23": lambda g: g.get_kernel_version(),
                "24": lambda g: g.get_distribution_version()}[which]
        return (Gateway, "", f"*#13**{which}##", f"*#13**{which}*{r[0]}*{r[1]}*0##", call,
                lambda v: [v == f"{r[0]}.{r[1]}.0"])
    if which == "uptime":
        d, h = T("d", 1), ctx.int(f"h{i}", 0, 23)
        return (Gateway, "", "*#13**19##", f"*#13**19*{d}*{h}*1*2##", lambda g: g.get_uptime(),
                lambda v: [v.days == int(d), v.seconds == h * 3600 + 62])
    v3 = T("v", 3)
    if which in ("113", "51", "53", "54", "73"):
        call = {"113": lambda e: e.get_active_power(), "51": lambda e: e.get_energy_unit_totalizer(),
                "53": lambda e: e.get_partial_totalizer_current_month(),
                "54": lambda e: e.get_partial_totalizer_current_day(),
                "73": lambda e: e.get_differential_current_level()}[which]
        w = "5" + str(at)
        return EnergyManagement, w, f"*#18*{w}*{which}##", f"*#18*{w}*{which}*{v3}##", call, lambda v: [v == int(v3)]
    if which == "52":
        mo = ctx.int(f"mo{i}", 1, 12)
        w = "5" + str(at)
        return (EnergyManagement, w, f"*#18*{w}*52#24#{mo}##", f"*#18*{w}*52#24#{mo}*{v3}##",
                lambda e: e.get_energy_unit_per_month(mo, 24), lambda v: [v == int(v3)])
    if which == "72":
        n = ctx.choice(f"n{i}", [1, 2])
        d = ctx.int(f"d{i}", 1, 28)
        w = f"7{at}#0"
        return (EnergyManagement, w, f"*#18*{w}*72#{n}##", f"*#18*{w}*72#{n}*{v3}*{d}*2*2023*4*5##",
                lambda e: e.get_totalizers(n), lambda v: [v[1] == int(v3), v[0].day == d, v[0].month == 2,
                                                          v[0].year == 2023, v[0].hour == 4, v[0].minute == 5])
    if which == "71":
        b = ctx.text(f"b{i}", 5, "01")
        w = f"7{at}#0"
        return (EnergyManagement, w, f"*#18*{w}*71##", f"*#18*{w}*71*{b[0]}*{b[1]}*{b[2]}*{b[3]}*{b[4]}*1##",
                lambda e: e.get_actuators_info(),
                lambda v: [ctx.iff(g, b[j] == "1") for j, g in enumerate(
                    [v.disabled, v.forcing, v.threshold, v.protection, v.phase])] + [v.advanced])
    if which == "250":
        b = ctx.text(f"b{i}", 13, "01")
        w = f"1{at}"
        return (StopGo, w, f"*#18*{w}*250##", f"*#18*{w}*250*{b}##", lambda e: e.request_status(),
                lambda v: [ctx.iff(getattr(v, a), b[12 - j] == "1") for j, a in enumerate(SG)])
    w = f"1{at}"
    if which == "level":
        return (Dimmer, w, f"*#1*{w}*1##", f"*#1*{w}*1*{v3}*5##", lambda e: collect(e.request_current_brightness_speed()),
                lambda v: [len(v) == 1, v[0][1] == int(v3), v[0][2] == 5, v[0][0].string == w])
    if which == "working":
        return (Light, w, f"*#1*{w}*8##", f"*#1*{w}*8*{v3}##", lambda e: collect(e.request_working_time_lamp()),
                lambda v: [len(v) == 1, v[0][1] == int(v3), v[0][0].string == w])
    s = ctx.text(f"s{i}", 1, "01")
    if which == "automation":
        return (Automation, w, f"*#2*{w}##", f"*2*{s}*{w}##", lambda e: collect(e.get_status()),
                lambda v: [len(v) == 1, v[0][1].value == s, v[0][0].string == w])
    return (Light, w, f"*#1*{w}##", f"*1*{s}*{w}##", lambda e: collect(e.get_status()),
            lambda v: [len(v) == 1, ctx.iff(v[0][1], s == "1"), v[0][0].string == w])


def repeated(ctx, which, order):
    """the same reading again and again, on one item, on another and through another client: each time the new answer"""
    lp = ctx.loop()
    conns = [connect(ctx, loop=lp) for _ in range(2)]
    items = {}
    for i, (conn, item) in enumerate(order):
        _, c, tr = conns[conn]
        cls, w, req, ans, call, ok = reading(ctx, which, i, item)
        it = items.get((conn, item))
        if it is None:
            it = items[(conn, item)] = cls(c, w)
        for _, _, t in conns:
            t.sent.clear()
        answer(tr, ans, ACK)
        k, v = outcome(lp.drive(call(it)))
        ctx.check(k == "value", "every reading is answered")
        ctx.check(tr.sent == [req.encode()], "by asking the gateway again")
        ctx.check(ctx.all_of(ok(v)), "and is the value of its own answer")
        ctx.check(not conns[1 - conn][2].sent, "the other client sends nothing")
    ctx.reach("repeated")


ORDER = [(0, 0), (0, 0), (0, 1), (1, 0)]


# ------------------------------------------------------------------ P16
def own_tz(h):
    return ("0" if h >= 0 else "1") + f"{h if h >= 0 else -h:02d}"


def tz_of(h):
    return datetime.timezone(datetime.timedelta(hours=h))


def days_in(ctx, y, mo):
    leap = ctx.all_of([y % 4 == 0, ctx.any_of([y % 100 != 0, y % 400 == 0])])
    return ctx.ite(mo == 2, ctx.ite(leap, 29, 28),
                   ctx.ite(ctx.any_of([mo == 4, mo == 6, mo == 9, mo == 11]), 30, 31))


def weekday(ctx, y, mo, d):
    """0 is Sunday (Sakamoto)"""
    t = [0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4]
    k = 0
    for i in range(12):
        k = ctx.ite(mo == i + 1, t[i], k)
    yy = ctx.ite(mo < 3, y - 1, y)
    return (yy + yy // 4 - yy // 100 + yy // 400 + k + d) % 7


def sym_time(ctx):
    return ctx.int("h", 0, 23), ctx.int("m", 0, 59), ctx.int("s", 0, 59)


def sym_date(ctx, lo, hi):
    y, mo, d = ctx.int("y", lo, hi), ctx.int("mo", 1, 12), ctx.int("d", 1, 31)
    ctx.assume(d <= days_in(ctx, y, mo))
    return y, mo, d


def time_round(ctx, lo, hi):
    h, m, s = sym_time(ctx)
    z = ctx.choice("z", range(lo, hi + 1))
    lp, c, tr = connect(ctx)
    answer(tr, ACK)
    k, v = outcome(lp.drive(Gateway(c).set_time(datetime.time(h, m, s, tzinfo=tz_of(z)))))
    ctx.check(k == "value" and len(tr.sent) == 1, "the time is set with one command")
    want = f"{h:02d}*{m:02d}*{s:02d}*{own_tz(z)}"
    ctx.check(tr.sent[0] == ("*#13**#0*" + want + "##").encode(), "as hour, minute, second and signed timezone")
    answer(tr, "*#13**0*" + want + "##", ACK)
    k, t = outcome(lp.drive(Gateway(c).get_time()))
    ctx.check(k == "value", "the gateway's time is read")
    ctx.check(tr.sent[1] == b"*#13**0##", "with its request")
    ctx.check(ctx.all_of([t.hour == h, t.minute == m, t.second == s]), "the same time of day comes back")
    ctx.check(t.utcoffset() == datetime.timedelta(hours=z), "in the same timezone")
    ctx.reach("time")


def date_round(ctx, lo, hi):
    y, mo, d = sym_date(ctx, lo, hi)
    lp, c, tr = connect(ctx)
    answer(tr, ACK)
    k, v = outcome(lp.drive(Gateway(c).set_date(datetime.date(y, mo, d))))
    ctx.check(k == "value" and len(tr.sent) == 1, "the date is set with one command")
    want = f"0{weekday(ctx, y, mo, d)}*{d:02d}*{mo:02d}*{y}"
    ctx.check(tr.sent[0] == ("*#13**#1*" + want + "##").encode(), "as weekday (Sunday 00), day, month and year")
    answer(tr, "*#13**1*" + want + "##", ACK)
    k, t = outcome(lp.drive(Gateway(c).get_date()))
    ctx.check(k == "value", "the gateway's date is read")
    ctx.check(tr.sent[1] == b"*#13**1##", "with its request")
    ctx.check(ctx.all_of([t.year == y, t.month == mo, t.day == d]), "the same date comes back")
    ctx.reach("date")


def datetime_round(ctx, lo, hi, zones):
    y, mo, d = sym_date(ctx, lo, hi)
    h, m, s = sym_time(ctx)
    z = ctx.choice("z", zones)
    lp, c, tr = connect(ctx)
    answer(tr, ACK)
    k, v = outcome(lp.drive(Gateway(c).set_datetime(datetime.datetime(y, mo, d, h, m, s, tzinfo=tz_of(z)))))
    ctx.check(k == "value" and len(tr.sent) == 1, "the date and time are set with one command")
    want = f"{h:02d}*{m:02d}*{s:02d}*{own_tz(z)}*0{weekday(ctx, y, mo, d)}*{d:02d}*{mo:02d}*{y}"
    ctx.check(tr.sent[0] == ("*#13**#22*" + want + "##").encode(), "in the documented order")
    answer(tr, "*#13**22*" + want + "##", ACK)
    k, t = outcome(lp.drive(Gateway(c).get_datetime()))
    ctx.check(k == "value", "the gateway's date and time are read")
    ctx.check(ctx.all_of([t.year == y, t.month == mo, t.day == d, t.hour == h, t.minute == m, t.second == s]),
              "the same date and time come back")
    ctx.check(t.utcoffset() == datetime.timedelta(hours=z), "in the same timezone")
    ctx.reach("datetime")


def micro(ctx):
    """parts of a second are dropped"""
    h, m, s = sym_time(ctx)
    u = ctx.choice("u", [1, 499999, 500000, 999999])
    lp, c, tr = connect(ctx)
    answer(tr, ACK)
    both = ctx.flag("both")
    tz = tz_of(-5)
    if both:
        k, v = outcome(lp.drive(Gateway(c).set_datetime(datetime.datetime(2024, 2, 29, h, m, s, u, tzinfo=tz))))
        want = f"*#13**#22*{h:02d}*{m:02d}*{s:02d}*105*04*29*02*2024##"
    else:
        k, v = outcome(lp.drive(Gateway(c).set_time(datetime.time(h, m, s, u, tzinfo=tz))))
        want = f"*#13**#0*{h:02d}*{m:02d}*{s:02d}*105##"
    ctx.check(k == "value" and len(tr.sent) == 1 and tr.sent[0] == want.encode(), "hour, minute and second as they are")
    ctx.reach("micro")


class NoOffset(datetime.tzinfo):
    """a timezone that cannot tell its offset"""

    def utcoffset(self, d):
        return None

    def tzname(self, d):
        return "?"

    def dst(self, d):
        return None


def naive(ctx):
    h, m, s = sym_time(ctx)
    lp, c, tr = connect(ctx)
    which = ctx.choice("which", ["time", "datetime"])
    tz = ctx.choice("tz", [None, NoOffset()])
    if which == "time":
        k, v = outcome(lp.drive(Gateway(c).set_time(datetime.time(h, m, s, tzinfo=tz))))
    else:
        k, v = outcome(lp.drive(Gateway(c).set_datetime(datetime.datetime(2024, 5, 6, h, m, s, tzinfo=tz))))
    ctx.check(k == "error" and isinstance(v, ValueError), "a time without timezone is refused")
    ctx.check(len(tr.sent) == 0, "and nothing is sent")
    ctx.reach("naive")


def no_tz(ctx):
    """an empty timezone field means UTC"""
    h, m, s = ctx.digits("h", 2), ctx.digits("m", 2), ctx.digits("s", 2)
    ctx.assume(ctx.all_of([int(h) <= 23, int(m) <= 59, int(s) <= 59]))
    lp, c, tr = connect(ctx)
    answer(tr, f"*#13**0*{h}*{m}*{s}*##", ACK)
    k, t = outcome(lp.drive(Gateway(c).get_time()))
    ctx.check(k == "value" and ctx.all_of([t.hour == int(h), t.minute == int(m), t.second == int(s)]), "time read")
    ctx.check(t.utcoffset() == datetime.timedelta(0), "in UTC")
    ctx.reach("no timezone")


def p16(tier):
    q = tier == "quick"
    for lo, hi in ((-12, -1), (0, 0), (1, 14)):
        yield "time_round", {"lo": lo, "hi": hi}
    for lo, hi in ((2000, 2009), (2020, 2029), (2090, 2101), (9998, 9999), (1000, 1001)) if q else \
            [(y, y + 9) for y in range(1970, 2110, 10)] + [(9990, 9999), (1000, 1009), (1896, 1905), (2396, 2404), (4998, 5002)]:
        yield "date_round", {"lo": lo, "hi": hi}
    for lo, hi in ((2019, 2021), (2024, 2025)) if q else [(y, y + 4) for y in range(2000, 2060, 5)]:
        for zones in ([-12, -1], [0, 1], [14]) if q else [list(range(z, z + 3)) for z in range(-12, 15, 3)]:
            yield "datetime_round", {"lo": lo, "hi": hi, "zones": zones}
    yield "datetime_round", {"lo": 9998, "hi": 9999, "zones": [2]}
    yield "naive", {}
    yield "micro", {}
    yield "no_tz", {}
    for w in ("time", "date", "datetime"):
        yield "repeated", {"which": w, "order": ORDER}


# ------------------------------------------------------------------ P17
def ask(ctx, dim, values, call):
    lp, c, tr = connect(ctx)
    answer(tr, "*".join([f"*#13**{dim}"] + values) + "##", ACK)
    k, v = outcome(lp.drive(call(Gateway(c))))
    ctx.check(tr.sent == [f"*#13**{dim}##".encode()], "the documented request is sent")
    ctx.check(k == "value", "a valid answer is decoded")
    ctx.reach("decoded " + dim)
    return v


def octets(ctx, n, k):
    out = []
    for i in range(k):
        t = ctx.digits(f"o{i}", n)
        ctx.assume(int(t) <= 255)
        out.append(t)
    return out


def ip(ctx, n):
    o = octets(ctx, n, 4)
    v = ask(ctx, "10", o, lambda g: g.get_ip())
    want = ((int(o[0]) * 256 + int(o[1])) * 256 + int(o[2])) * 256 + int(o[3])
    ctx.check(int(v) == want, "the address has the four octets in order")


def netmask(ctx, n):
    o = octets(ctx, n, 4)
    v = ask(ctx, "11", o, lambda g: g.get_netmask())
    ctx.check(v == f"{int(o[0])}.{int(o[1])}.{int(o[2])}.{int(o[3])}", "the mask in dotted form")


def mac(ctx, n):
    o = octets(ctx, n, 6)
    v = ask(ctx, "12", o, lambda g: g.get_macaddress())
    H = "0123456789ABCDEF"
    ctx.check(len(v) == 17 and all(v[3 * i + 2] == ":" for i in range(5)), "six pairs with colons")
    p = v.upper().split(":")
    ctx.check(ctx.all_of([int(p[i], 16) == int(o[i]) for i in range(6)]), "each octet in hexadecimal")


def model(ctx, n):
    t = ctx.digits("t", n)
    v = ask(ctx, "15", [t], lambda g: g.get_model())
    known = ["0", "2", "4", "6", "7", "11", "12", "23", "200"]
    is_known = ctx.any_of([t == x for x in known])
    ctx.check(ctx.implies(is_known, v.value == t), "a known model is itself")
    ctx.check(ctx.implies(not is_known, v is GatewayModel.GENERIC), "an unknown model is generic")


def version(ctx, which, n):
    t = [ctx.digits(f"t{i}", n) for i in range(3)]
    call = {"16": lambda g: g.get_firmware(), "23": lambda g: g.get_kernel_version(),
            "24": lambda g: g.get_distribution_version()}[which]
    v = ask(ctx, which, t, call)
    ctx.check(v == ".".join(t), "version, release and build, dotted")


def uptime(ctx, n):
    d, h, m, s = ctx.digits("d", n), ctx.digits("h", 2), ctx.digits("m", 2), ctx.digits("s", 2)
    ctx.assume(ctx.all_of([int(h) <= 23, int(m) <= 59, int(s) <= 59]))
    v = ask(ctx, "19", [d, h, m, s], lambda g: g.get_uptime())
    ctx.check(v.days == int(d), "days")
    ctx.check(v.seconds == int(h) * 3600 + int(m) * 60 + int(s), "hours, minutes and seconds")


def netinfo(ctx, bits):
    """the network of an address and a mask of so many bits"""
    o = octets(ctx, 2, 4)
    full = (0xFFFFFFFF << (32 - bits)) & 0xFFFFFFFF
    mask = [str((full >> s) & 255) for s in (24, 16, 8, 0)]
    lp, c, tr = connect(ctx)
    n = {"i": 0}

    def on_write(data):
        n["i"] += 1
        if n["i"] == 1:
            tr.feed_later(("*".join(["*#13**10"] + o) + "##").encode())
        else:
            tr.feed_later(("*".join(["*#13**11"] + mask) + "##").encode())
        tr.feed_later(ACK)
    tr.on_write = on_write
    k, v = outcome(lp.drive(Gateway(c).get_netinfo()))
    ctx.check(k == "value", "the network is computed")
    ctx.check(v.prefixlen == bits, "with the mask of the gateway")
    ipn = ((int(o[0]) * 256 + int(o[1])) * 256 + int(o[2])) * 256 + int(o[3])
    ctx.check(int(v.network_address) == ipn & full, "and the network address of its IP")
    ctx.reach("netinfo")


def p17(tier):
    q = tier == "quick"
    for n in (1, 3):
        yield "ip", {"n": n}
        yield "netmask", {"n": n}
        yield "mac", {"n": n}
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 6):
        yield "model", {"n": n}
    for w in ("16", "23", "24"):
        yield "version", {"which": w, "n": 1}
        yield "version", {"which": w, "n": 3}
    for n in (1, 3, 5):
        yield "uptime", {"n": n}
    for w in ("ip", "netmask", "mac", "model", "16", "23", "24", "uptime"):
        yield "repeated", {"which": w, "order": ORDER}
    for b in (8, 24, 30) if q else range(1, 32, 3):
        yield "netinfo", {"bits": b}


# ------------------------------------------------------------------ P18
SG = ["open", "failure", "block", "open_cc", "open_ground_fault", "open_vmax", "self_test_off", "auto_reset_off",
      "check_off", "waiting_closing", "first_24h_open", "power_fail_down", "power_fail_up"]


def energy_ask(ctx, where, dim, values, call, cls=EnergyManagement):
    lp, c, tr = connect(ctx)
    answer(tr, "*".join([f"*#18*{where}*{dim}"] + values) + "##", ACK)
    k, v = outcome(lp.drive(call(cls(c, where))))
    ctx.check(tr.sent == [f"*#18*{where}*{dim}##".encode()], "the documented request is sent")
    ctx.check(k == "value", "a valid answer is decoded")
    ctx.reach("energy " + dim.split("#")[0])
    return v


def meter(ctx, dim, n):
    t = ctx.digits("t", n)
    w = "5" + ctx.digits("w", 2)
    call = {"113": lambda e: e.get_active_power(), "51": lambda e: e.get_energy_unit_totalizer(),
            "53": lambda e: e.get_partial_totalizer_current_month(), "54": lambda e: e.get_partial_totalizer_current_day(),
            "73": lambda e: e.get_differential_current_level()}[dim]
    v = energy_ask(ctx, w, dim, [t], call)
    ctx.check(v == int(t), "the measured value")


def per_month(ctx, n):
    t = ctx.digits("t", n)
    mo, y = ctx.int("mo", 1, 12), ctx.int("y", 10, 99)
    lp, c, tr = connect(ctx)
    answer(tr, f"*#18*51*52#{y}#{mo}*{t}##", ACK)
    k, v = outcome(lp.drive(EnergyManagement(c, "51").get_energy_unit_per_month(mo, y)))
    ctx.check(tr.sent == [f"*#18*51*52#{y}#{mo}##".encode()], "year and month are requested")
    ctx.check(k == "value" and v == int(t), "the measured value")
    ctx.reach("energy 52")


def per_month_now(ctx):
    y, mo = ctx.int("y", 2010, 2099), ctx.int("mo", 1, 12)
    ctx.set_now(y, mo, 15, 10, 30, 0)
    lp, c, tr = connect(ctx)
    answer(tr, "*#18*51*52*5##", ACK)
    k, v = outcome(lp.drive(EnergyManagement(c, "51").get_energy_unit_per_month()))
    ctx.check(tr.sent == [f"*#18*51*52#{y % 100}#{mo}##".encode()], "the current month is requested")
    ctx.reach("energy now")


def totalizer(ctx, n):
    t = ctx.digits("t", n)
    num = ctx.int("num", 1, 20)
    y, mo, d = sym_date(ctx, 2000, 2030)
    h, m = ctx.int("h", 0, 23), ctx.int("m", 0, 59)
    lp, c, tr = connect(ctx)
    answer(tr, f"*#18*71#0*72#{num}*{t}*{d}*{mo}*{y}*{h}*{m}##", ACK)
    k, v = outcome(lp.drive(EnergyManagement(c, "71#0").get_totalizers(num)))
    ctx.check(tr.sent == [f"*#18*71#0*72#{num}##".encode()], "the totalizer is requested")
    ctx.check(k == "value", "decoded")
    w, e = v
    ctx.check(ctx.all_of([w.year == y, w.month == mo, w.day == d, w.hour == h, w.minute == m]), "the moment of the last reset")
    ctx.check(e == int(t), "and the energy since")
    ctx.reach("energy 72")


def actuator(ctx):
    b = [ctx.text(f"b{i}", 1, "01") for i in range(5)] + [ctx.text("b5", 1, "12")]
    v = energy_ask(ctx, "71#0", "71", b, lambda e: e.get_actuators_info())
    got = [v.disabled, v.forcing, v.threshold, v.protection, v.phase, v.advanced]
    ctx.check(ctx.all_of([ctx.iff(g, x == "1") for g, x in zip(got, b)]), "each flag is its own value")


def stopgo(ctx):
    bits = ctx.text("bits", 13, "01")
    v = energy_ask(ctx, "11", "250", [bits], lambda e: e.request_status(), cls=StopGo)
    ctx.check(all(getattr(v, a) is not None for a in SG), "every flag is known")
    ctx.check(ctx.all_of([ctx.iff(getattr(v, a), bits[12 - i] == "1") for i, a in enumerate(SG)]),
              "the last digit is the first flag")


def stopgo_single(ctx):
    """the single-flag dimensions"""
    from pyown.items.energy.enums import DimensionEnergy
    i = ctx.choice("i", range(13))
    bit = ctx.text("bit", 1, "01")
    dim = str(251 + i)
    v = energy_ask(ctx, "11", dim, [bit], lambda e: e.request_status(dim_req=DimensionEnergy(dim)), cls=StopGo)
    ctx.check(getattr(v, SG[i]) is not None, "the flag asked for is known")
    ctx.check(ctx.iff(getattr(v, SG[i]), bit == "1"), "the flag is its own value")
    ctx.check(all(getattr(v, a) is None for a in SG if a != SG[i]), "the others are unknown")


def light_reads(ctx, call, wide=0):
    w = ctx.digits("w", 2)
    lp, c, tr = connect(ctx)
    if call == "hsv":
        v = [ctx.digits("h", wide or 3), ctx.digits("s", wide or 2), ctx.digits("v", wide or 2)]
        dim, f = "12", lambda: Dimmer(c, w).request_current_hsv()
    elif call == "white":
        v = [ctx.digits("t", wide or 5)]
        dim, f = "14", lambda: Dimmer(c, w).request_current_white_temperature()
    elif call == "level":
        v = [ctx.digits("b", wide or 3), ctx.digits("s", wide or 3)]
        dim, f = "1", lambda: Dimmer(c, w).request_current_brightness_speed()
    elif call == "temporization":
        v = [ctx.digits("h", wide or 2), ctx.digits("m", wide or 2), ctx.digits("s", wide or 2)]
        dim, f = "2", lambda: Light(c, w).temporization_request()
    else:
        v = [ctx.digits("t", wide or 5)]
        dim, f = "8", lambda: Light(c, w).request_working_time_lamp()
    answer(tr, "*".join([f"*#1*{w}*{dim}"] + v) + "##", ACK)
    k, got = outcome(lp.drive(collect(f())))
    ctx.check(tr.sent == [f"*#1*{w}*{dim}##".encode()], "the documented request is sent")
    ctx.check(k == "value" and len(got) == 1 and len(got[0]) == len(v) + 1, "one answer is yielded")
    ctx.check(got[0][0].string == w, "with its address")
    ctx.check(ctx.all_of([g == int(x) for g, x in zip(got[0][1:], v)]), "and its values in order")
    ctx.reach("light " + call)


def dimmer_status(ctx):
    w, v = ctx.digits("w", 2), ctx.choice("v", ["0", "2", "3", "4", "5", "6", "7", "8", "9", "10"])
    lp, c, tr = connect(ctx)
    answer(tr, f"*1*{v}*{w}##", ACK)
    k, got = outcome(lp.drive(collect(Dimmer(c, w).get_status())))
    ctx.check(k == "value" and len(got) == 1, "the level is read")
    ctx.check(got[0][0].string == w and got[0][1] == int(v) * 10, "as a percentage")
    ctx.reach("dimmer status")


def automation_status(ctx):
    w, v = ctx.digits("w", 2), ctx.text("v", 1, "012")
    lp, c, tr = connect(ctx)
    answer(tr, f"*2*{v}*{w}##", ACK)
    k, got = outcome(lp.drive(collect(Automation(c, w).get_status())))
    ctx.check(k == "value" and len(got) == 1, "the state is read")
    ctx.check(ctx.all_of([got[0][0].string == w, got[0][1].value == v]), "as the state the gateway sent")
    ctx.reach("automation status")


def p18(tier):
    q = tier == "quick"
    for d in ("113", "51", "53", "54", "73"):
        for n in (1, 4, 10) if q else (1, 4, 8, 10, 20):
            yield "meter", {"dim": d, "n": n}
    yield "per_month", {"n": 3}
    yield "per_month_now", {}
    yield "totalizer", {"n": 3}
    yield "actuator", {}
    yield "stopgo", {}
    yield "stopgo_single", {}
    for call in ("hsv", "white", "level", "temporization", "working"):
        for wide in (0, 1, 7) if q else (0, 1, 2, 6, 7, 12):
            yield "light_reads", {"call": call, "wide": wide}
    yield "dimmer_status", {}
    yield "automation_status", {}
    for w in ("113", "51", "53", "54", "73", "52", "72", "71", "250", "level", "working", "automation", "status"):
        yield "repeated", {"which": w, "order": ORDER}


# ------------------------------------------------------------------ P25
def energy_address(ctx, n):
    w = ctx.text("w", n, "0123456789#")
    lp = ctx.loop()
    D = "[0-9]+"
    kinds = [(TypeEnergy.STOP_GO, "1" + D), (TypeEnergy.POWER_METER, "5" + D), (TypeEnergy.ACTUATOR, "7" + D + "#0")]
    conds = [ctx.matches(p, w) for _, p in kinds]
    try:
        e = EnergyManagement(None, w)
    except InvalidTag:
        ctx.check(not ctx.any_of(conds), "a documented address is accepted")
        ctx.reach("refused address")
        return
    t = e.get_type()
    for (k, p), cond in zip(kinds, conds):
        ctx.check(ctx.iff(t is k, cond), "the kind of an energy item follows from its address")
    ctx.check(e.where.string == w, "the address is kept")
    ctx.reach("address " + t.name)


def stopgo_address(ctx, n):
    w = ctx.text("w", n, "0123456789#")
    try:
        StopGo(None, w)
    except InvalidTag:
        ctx.check(not ctx.matches("1[0-9]+", w), "a Stop&Go address is accepted")
        ctx.reach("not a stop&go")
        return
    ctx.check(ctx.matches("1[0-9]+", w), "only Stop&Go addresses make a Stop&Go item")
    ctx.reach("stop&go")


def p25(tier):
    for n in range(0, 8 if tier == "quick" else 11):
        yield "energy_address", {"n": n}
        yield "stopgo_address", {"n": n}


# ------------------------------------------------------------------ P19
class Rec:
    def __init__(self):
        self.calls = []

    def cb(self, name):
        async def f(*a):
            self.calls.append((name, a))
        return f


def listen_all(ctx, copies=1, skip=None):
    """every kind of callback registered (but one)"""
    r = Rec()
    for i in range(copies):
        for n, on in (("status", Light.on_status_change), ("temporization", Light.on_temporization_change),
                      ("luminosity", Dimmer.on_luminosity_change), ("hsv", Dimmer.on_hsv_change),
                      ("white", Dimmer.on_white_temp_change), ("automation", Automation.on_status_change),
                      ("camera", Camera.on_status_change)):
            if n != skip:
                on(r.cb(n))
        for w in WhatGateway:
            if "gateway " + w.value != skip:
                Gateway.register_callback(w, r.cb("gateway " + w.value))
        for n in ("daily_totalizers_hourly", "monthly_average_hourly", "monthly_totalizers_current_year",
                  "monthly_totalizers_last_year", "stop_go_status", "instant_power", "energy_unit_totalizer",
                  "energy_unit_per_month", "partial_totalizer_current_month", "partial_totalizer_current_day",
                  "actuators_info", "totalizer_since_reset", "differential_current_level"):
            if n != skip:
                getattr(EnergyManagement, "on_" + n)(r.cb(n))
    lp, c, tr = connect(ctx, SessionType.EventSession)
    t = lp.create_task(c.loop())
    return lp, c, tr, r, t


def event(ctx, text, name, where, cls, check, copies=1):
    if copies == 1 and ctx.flag("nobody"):
        # nobody registered for this kind of event
        lp, c, tr, r, t = listen_all(ctx, 1, skip=name)
        tr.feed(text.encode())
        lp.settle()
        ctx.check(not t.done(), "the loop keeps running")
        ctx.check(len(r.calls) == 0, "no callback of another kind of event is called")
        ctx.reach("event of nobody")
        return
    lp, c, tr, r, t = listen_all(ctx, copies)
    tr.feed(text.encode())
    lp.settle()
    ctx.check(not t.done(), "the loop keeps running")
    ctx.check(len(r.calls) == copies and all(x[0] == name for x in r.calls),
              "exactly the callbacks registered for the event are called, once each")
    for _, a in r.calls:
        ctx.check(isinstance(a[0], cls), "with an item of the right class")
        ctx.check(a[0].where.string == where, "at the address of the event")
        check(a[1:])
    ctx.reach("event " + name)


def eq_args(ctx, want):
    def f(args):
        ctx.check(len(args) == len(want), "with the documented arguments")
        ctx.check(ctx.all_of([a == w for a, w in zip(args, want)]), "and their values")
    return f


def light_event(ctx, n, copies):
    what = ctx.digits("v", n)
    par = ctx.flag("par")
    w = ctx.digits("w", 2) + ctx.choice("iface", ["", "#4#01"])
    event(ctx, f"*1*{what}{'#5' if par else ''}*{w}##", "status", w, Light,
          lambda a: ctx.check(len(a) == 1 and ctx.iff(a[0], what != "0"), "off exactly for WHAT 0"), copies)


def light_dim_event(ctx, which, copies=1):
    w = ctx.digits("w", 2) + ctx.choice("iface", ["", "#4#02"])
    d = {"1": ("luminosity", [3, 3]), "2": ("temporization", [2, 2, 2]), "12": ("hsv", [3, 2, 2]), "14": ("white", [4])}
    name, lens = d[which]
    v = [ctx.digits(f"v{i}", k) for i, k in enumerate(lens)]
    event(ctx, "*".join([f"*#1*{w}*{which}"] + v) + "##", name, w, Light, eq_args(ctx, [int(x) for x in v]), copies)


def automation_event(ctx, copies):
    w, v = ctx.digits("w", 2) + ctx.choice("iface", ["", "#4#03"]), ctx.text("v", 1, "012")
    event(ctx, f"*2*{v}*{w}##", "automation", w, Automation,
          lambda a: ctx.check(len(a) == 1 and a[0].value == v, "the state of the event"), copies)


def camera_event(ctx, copies=1):
    w = ctx.digits("w", 4)
    v = ctx.choice("v", ["0", "9"] + [str(x) for x in NOWHERE.values() if x > 9] +
                   [f"3{x}{y}" for x in "1234" for y in "1234"])
    text = f"*7*{v}*{w}##"

    def check(a):
        ctx.check(len(a) == 2 and a[0].value == v, "the state of the event")
        ctx.check(a[1].message == text, "and the message")
    event(ctx, text, "camera", w, Camera, check, copies)


def gateway_event(ctx, which, writing, copies=1):
    h, m, s = ctx.digits("h", 2), ctx.digits("m", 2), ctx.digits("s", 2)
    o = [ctx.digits(f"o{i}", 3) for i in range(6)] if which in ("10", "11", "12") else ["1"] * 6
    ver = [ctx.digits(f"r{i}", 2) for i in range(3)]
    ctx.assume(ctx.all_of([int(h) <= 23, int(m) <= 59, int(s) <= 59] + [int(x) <= 255 for x in o]))
    if which == "0":
        vals = [h, m, s, "001"]
        chk = lambda a: ctx.check(ctx.all_of([a[0].hour == int(h), a[0].minute == int(m), a[0].second == int(s),
                                              a[0].utcoffset() == datetime.timedelta(hours=1)]), "the time")
    elif which == "1":
        d, mo = ctx.int("d", 1, 28), ctx.int("mo", 1, 12)
        y = ctx.int("y", 2000, 2099)
        vals = ["03", f"{d:02d}", f"{mo:02d}", f"{y}"]
        chk = lambda a: ctx.check(ctx.all_of([a[0].year == y, a[0].month == mo, a[0].day == d]), "the date")
    elif which == "10":
        vals = o[:4]
        chk = lambda a: ctx.check(int(a[0]) == ((int(o[0]) * 256 + int(o[1])) * 256 + int(o[2])) * 256 + int(o[3]), "the address")
    elif which == "11":
        vals = o[:4]
        chk = lambda a: ctx.check(a[0] == f"{int(o[0])}.{int(o[1])}.{int(o[2])}.{int(o[3])}", "the mask")
    elif which == "12":
        vals = o
        chk = lambda a: ctx.check(ctx.all_of([int(p, 16) == int(x) for p, x in zip(a[0].split(":"), o)]), "the MAC address")
    elif which == "15":
        vals = ["200"]
        chk = lambda a: ctx.check(a[0] is GatewayModel.MH202, "the model")
    elif which in ("16", "23", "24"):
        vals = ver
        chk = lambda a: ctx.check(a[0] == ".".join(ver), "the version")
    elif which == "19":
        vals = ["12", h, m, s]
        chk = lambda a: ctx.check(ctx.all_of([a[0].days == 12, a[0].seconds == int(h) * 3600 + int(m) * 60 + int(s)]), "the uptime")
    else:
        d, mo = ctx.int("d", 1, 28), ctx.int("mo", 1, 12)
        vals = [h, m, s, "102", "03", f"{d:02d}", f"{mo:02d}", "2024"]
        chk = lambda a: ctx.check(ctx.all_of([a[0].hour == int(h), a[0].minute == int(m), a[0].second == int(s),
                                              a[0].month == mo, a[0].day == d, a[0].year == 2024,
                                              a[0].utcoffset() == -datetime.timedelta(hours=2)]), "the date and time")

    def check(a):
        ctx.check(len(a) == 1, "with a single value")
        chk(a)
    event(ctx, "*".join([f"*#13**{'#' if writing else ''}{which}"] + vals) + "##", "gateway " + which, "", Gateway, check, copies)


def energy_event(ctx, which, copies=1):
    w = "5" + ctx.digits("w", 1)
    v = ctx.digits("v", 10)
    mo, d, h = ctx.int("mo", 1, 12), ctx.int("d", 1, 31), ctx.int("h", 1, 25)
    y = ctx.int("y", 1, 2150)
    n = int(v)
    if which == "511":
        t, name, args = f"511#{mo}#{d}*{h}*{v}", "daily_totalizers_hourly", [d, mo, h, n]
    elif which == "512":
        t, name, args = f"512#{mo}*{h}*{v}", "monthly_average_hourly", [mo, h, n]
    elif which == "513":
        t, name, args = f"513#{mo}*{d}*{v}", "monthly_totalizers_current_year", [mo, d, n]
    elif which == "514":
        t, name, args = f"514#{mo}*{d}*{v}", "monthly_totalizers_last_year", [mo, d, n]
    elif which == "113":
        t, name, args = f"113*{v}", "instant_power", [n]
    elif which == "51":
        t, name, args = f"51*{v}", "energy_unit_totalizer", [n]
    elif which == "52":
        t, name, args = f"52#{y}#{mo}*{v}", "energy_unit_per_month", [mo, y, n]
    elif which == "53":
        t, name, args = f"53*{v}", "partial_totalizer_current_month", [n]
    elif which == "54":
        t, name, args = f"54*{v}", "partial_totalizer_current_day", [n]
    else:
        t, name, args = f"73*{v}", "differential_current_level", [n]
    event(ctx, f"*#18*{w}*{t}##", name, w, EnergyManagement, eq_args(ctx, args), copies)


def energy_state_event(ctx, which, copies=1):
    if which == "250":
        bits = ctx.text("bits", 13, "01")

        def check(a):
            ctx.check(len(a) == 1, "with one status")
            ctx.check(ctx.all_of([ctx.iff(getattr(a[0], f), bits[12 - i] == "1") for i, f in enumerate(SG)]),
                      "the last digit is the first flag")
        event(ctx, f"*#18*11*250*{bits}##", "stop_go_status", "11", EnergyManagement, check, copies)
    elif which == "71":
        b = [ctx.text(f"b{i}", 1, "01") for i in range(5)] + [ctx.text("b5", 1, "12")]

        def check(a):
            v = a[0]
            got = [v.disabled, v.forcing, v.threshold, v.protection, v.phase, v.advanced]
            ctx.check(len(a) == 1 and ctx.all_of([ctx.iff(g, x == "1") for g, x in zip(got, b)]), "each flag is its own value")
        event(ctx, "*".join(["*#18*71#0*71"] + b) + "##", "actuators_info", "71#0", EnergyManagement, check, copies)
    else:
        t, num = ctx.digits("t", 3), ctx.int("num", 1, 20)
        mo, d, h, m = ctx.int("mo", 1, 12), ctx.int("d", 1, 28), ctx.int("h", 0, 23), ctx.int("m", 0, 59)

        def check(a):
            ctx.check(len(a) == 3 and a[0] == num, "the totalizer")
            ctx.check(ctx.all_of([a[1].year == 2023, a[1].month == mo, a[1].day == d, a[1].hour == h, a[1].minute == m]),
                      "the moment of the last reset")
            ctx.check(a[2] == int(t), "and the energy since")
        event(ctx, f"*#18*71#0*72#{num}*{t}*{d}*{mo}*2023*{h}*{m}##", "totalizer_since_reset", "71#0", EnergyManagement, check, copies)


OWN_DIMS = {"1": ["1", "2", "12", "14"], "2": [], "7": [], "13": [w.value for w in WhatGateway],
            "18": ["511", "512", "513", "514", "113", "51", "52", "53", "54", "73", "71", "72", "250"]}


def foreign_dimension(ctx, n, form):
    """a dimension that is no event of the subsystem calls nobody"""
    who = ctx.choice("who", list(OWN_DIMS))
    d = ctx.digits("d", n)
    ctx.assume(ctx.all_of([d != x for x in OWN_DIMS[who]]))
    # the single Stop&Go flags are part of the Stop&Go status
    if who == "18" and n == 3:
        ctx.assume(ctx.all_of([d != str(251 + i) for i in range(13)]))
    v = ctx.digits("v", 1)
    w = {"1": "12", "2": "12", "7": "4000", "13": "", "18": "51"}[who]
    lp, c, tr, r, t = listen_all(ctx)
    tr.feed((f"*#{who}*{w}*{d}" + ("" if form == "request" else f"*{v}*1*1*1*1*1*1*1") + "##").encode())
    lp.settle()
    ctx.check(not t.done(), "the loop keeps running")
    ctx.check(len(r.calls) == 0, "no callback is called for a dimension that is no event")
    tr.feed(b"*1*1*12##")
    lp.settle()
    ctx.check(len(r.calls) == 1 and r.calls[0][0] == "status", "the next event calls its own")
    ctx.reach("foreign dimension " + form)


def event_order(ctx, n):
    """several events in one packet: callbacks in order"""
    lp, c, tr, r, t = listen_all(ctx)
    ev = [(ctx.digits(f"w{i}", 2), ctx.digits(f"v{i}", 1)) for i in range(n)]
    tr.feed("".join(f"*1*{v}*{w}##" for w, v in ev).encode())
    lp.settle()
    ctx.check(len(r.calls) == n, "one call per event")
    ctx.check(ctx.all_of([ctx.all_of([a[0].where.string == w, ctx.iff(a[1], v != "0")])
                          for (_, a), (w, v) in zip(r.calls, ev)]), "in the order of arrival")
    ctx.reach("ordered")


def two_loops(ctx, k):
    """two event sessions at once: each event reaches the callbacks once, with an item of its own client"""
    got = []

    async def cb(item, on):
        got.append((item, on))
    Light.on_status_change(cb)
    lp = ctx.loop()
    _, c, tc = connect(ctx, SessionType.EventSession, loop=lp)
    _, d, td = connect(ctx, SessionType.EventSession, loop=lp)
    tasks = [lp.create_task(c.loop()), lp.create_task(d.loop())]
    want = []
    for i in range(k):
        v, w = ctx.digits(f"v{i}", 1), ctx.digits(f"w{i}", 2)
        if ctx.flag(f"second{i}"):
            td.feed(f"*1*{v}*{w}##".encode())
            want.append((d, v, w))
        else:
            tc.feed(f"*1*{v}*{w}##".encode())
            want.append((c, v, w))
        lp.settle()
    ctx.check(not any(t.done() for t in tasks), "both loops keep running")
    ctx.check(len(got) == k, "each event is dispatched once")
    ctx.check(ctx.all_of([ctx.all_of([g[0].client is x, g[0].where.string == w, ctx.iff(g[1], v != "0")])
                          for g, (x, v, w) in zip(got, want)]), "with an item of its own client, address and status")
    ctx.reach("two loops")


def late_callbacks(ctx):
    """callbacks registered while the loop runs hear the next events"""
    got = []

    def make(n):
        async def cb(item, on):
            got.append((n, on))
        return cb
    Light.on_status_change(make(0))
    lp, c, tr = connect(ctx, SessionType.EventSession)
    t = lp.create_task(c.loop())
    v = [ctx.digits(f"v{i}", 1) for i in range(3)]
    for i in range(3):
        tr.feed(f"*1*{v[i]}*12##".encode())
        lp.settle()
        Light.on_status_change(make(i + 1))
    ctx.check([n for n, _ in got] == [0, 0, 1, 0, 1, 2], "each event calls exactly the callbacks registered by then")
    seq = [v[0], v[1], v[1], v[2], v[2], v[2]]
    ctx.check(ctx.all_of([ctx.iff(on, x != "0") for (_, on), x in zip(got, seq)]), "with its own status")
    ctx.reach("late callbacks")


def other_client(ctx):
    """items of events are bound to the client given to the loop"""
    got = []

    async def cb(item, on):
        got.append(item)
    Light.on_status_change(cb)
    lp, c, tr = connect(ctx, SessionType.EventSession)
    kind = ctx.choice("kind", ["command", "old", "event", "not started"])
    if kind == "not started":
        cmd = Client("127.0.0.1", 20000, "12345", loop=lp)
    else:
        _, cmd, tr2 = connect(ctx, {"command": SessionType.CommandSession, "old": SessionType.OldCommandSession,
                                    "event": SessionType.EventSession}[kind], loop=lp)
    t = lp.create_task(c.loop(client=cmd))
    w = ctx.digits("w", 2)
    tr.feed(f"*1*1*{w}##".encode())
    lp.settle()
    ctx.check(len(got) == 1 and got[0].client is cmd, "the item uses the client given")
    if kind in ("event", "not started"):
        k, v = outcome(lp.drive(got[0].turn_off()))
        ctx.check(k == "error" and isinstance(v, InvalidSession) and not tr.sent, "and no other one")
        return
    answer(tr2, ACK)
    k, v = outcome(lp.drive(got[0].turn_off()))
    ctx.check(k == "value" and tr2.sent == [f"*1*0*{w}##".encode()] and not tr.sent, "and commands through it")
    ctx.reach("command client")


def p19(tier):
    q = tier == "quick"
    for n in (1, 2) if q else (1, 2, 3):
        yield "light_event", {"n": n, "copies": 1}
    yield "light_event", {"n": 1, "copies": 3}
    yield "light_event", {"n": 1, "copies": 120 if q else 600}
    for d in ("1", "2", "12", "14"):
        yield "light_dim_event", {"which": d}
    yield "automation_event", {"copies": 1}
    yield "automation_event", {"copies": 2}
    yield "camera_event", {}
    for w in WhatGateway:
        for wr in (False, True):
            yield "gateway_event", {"which": w.value, "writing": wr}
    for d in ("511", "512", "513", "514", "113", "51", "52", "53", "54", "73"):
        yield "energy_event", {"which": d}
    for d in ("250", "71", "72"):
        yield "energy_state_event", {"which": d}
    for d in ("1", "2", "12", "14"):
        yield "light_dim_event", {"which": d, "copies": 12 if q else 100}
    yield "camera_event", {"copies": 4}
    yield "camera_event", {"copies": 12 if q else 100}
    yield "automation_event", {"copies": 12 if q else 100}
    for w in WhatGateway:
        yield "gateway_event", {"which": w.value, "writing": False, "copies": 12 if q else 100}
    for d in ("511", "512", "513", "514", "113", "51", "52", "53", "54", "73"):
        yield "energy_event", {"which": d, "copies": 12 if q else 100}
    for d in ("250", "71", "72"):
        yield "energy_state_event", {"which": d, "copies": 12 if q else 100}
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        yield "foreign_dimension", {"n": n, "form": "values"}
        yield "foreign_dimension", {"n": n, "form": "request"}
    yield "event_order", {"n": 2 if q else 4}
    yield "other_client", {}
    yield "two_loops", {"k": 2 if q else 3}
    yield "late_callbacks", {}


SPEC = {
    "P14": {"cases": p14, "bounds": "five commands against any answer of 6..7 (thorough 4..10) characters and against silence or "
            "late answers; status and dimension requests with 0..2 (thorough 4) symbolic answers ended by ACK, NACK or a "
            "message of any other kind with symbolic digits; single-value requests with 0..2 answers, each followed by another request; "
            "2 (thorough 4) answers 1 or 4 s apart ended by ACK, NACK or silence; lists of 150 (thorough 1000) answers",
            "outside": "unsolicited messages on a command session; answers later than five seconds",
            "reach": ["acknowledged", "not acknowledged", "late answer", "silence", "statuses ack", "statuses nack",
                      "statuses other", "dimensions ack", "dimensions nack", "dimensions other", "single",
                      "slow ack", "slow nack", "slow silent", "many answers",
                      "answered by another kind", "request ended by another kind"]},
    "P15": {"cases": p15, "bounds": "every command method of the lights, automations, cameras and energy items, with symbolic "
            "addresses of 2..3 (thorough 5) characters and symbolic arguments in and far around their documented ranges; every "
            "sequence of 2 (thorough 3) out of seven commands on two lights and two energy items",
            "outside": "energy arguments out of range (not checked by the library)",
            "reach": ["sent", "refused", "sequence"]},
    "P16": {"cases": p16, "bounds": "every time of day, every date of the listed years (quick 2000-2009, 2020-2029, 2090-2101, 1000-1001, 9998-9999; "
            "thorough 1970-2109 and six other windows), whole-hour timezones -12..+14; each reading four times, on one item, another item and another client", "outside": "timezones that are not whole hours",
            "reach": ["time", "date", "datetime", "naive", "no timezone", "repeated", "micro"]},
    "P17": {"cases": p17, "bounds": "every octet written with 1 or 3 digits, every model of 1..4 (thorough 6) digits, versions of 1 or 3 "
            "digits, uptimes up to 99999 days, networks of the listed prefix lengths; each reading four times, on one item, another item and another client", "outside": "other widths",
            "reach": ["decoded 10", "decoded 11", "decoded 12", "decoded 15", "decoded 16", "decoded 19", "decoded 23",
                      "decoded 24", "netinfo", "repeated"]},
    "P18": {"cases": p18, "bounds": "every reading of 1, 4 or 10 (thorough 20) digits, every actuator and Stop&Go status, every "
            "reset date 2000-2030, every light answer with values of 1..7 (thorough 12) digits; each reading four times, on one item, another item and another client",
            "outside": "wider values; dimmer levels other than 0 and 2..10",
            "reach": ["energy 113", "energy 51", "energy 52", "energy 53", "energy 54", "energy 73", "energy 72",
                      "energy 71", "energy 250", "energy 251", "light hsv", "light white", "light level",
                      "light temporization", "light working", "dimmer status", "automation status", "repeated"]},
    "P25": {"cases": p25, "bounds": "every address of 0..7 (thorough 10) characters over digits and '#'",
            "outside": "longer addresses; the numeric range after the first digit (not checked by the library)",
            "reach": ["address STOP_GO", "address POWER_METER", "address ACTUATOR", "refused address", "stop&go",
                      "not a stop&go"]},
    "P19": {"cases": p19, "bounds": "one event of every kind with symbolic address and values, all callbacks registered (up to "
            "12 (thorough 100) copies, light events 120 (thorough 600), or all but its own); every dimension of 1..3 (thorough 4) digits that is no event; 2 (thorough 4) events in one packet; two event sessions at once", "outside": "wider values; malformed event contents (P20)",
            "reach": ["event status", "event luminosity", "event temporization", "event hsv", "event white",
                      "event automation", "event camera", "event stop_go_status", "event actuators_info",
                      "event totalizer_since_reset", "ordered", "command client",
                      "event of nobody", "two loops", "late callbacks",
                      "foreign dimension values", "foreign dimension request"]},
}
