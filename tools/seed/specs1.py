SPECS = []


def bug(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO):
    SPECS.append(dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=DEMO))


bug("resp_drops_empty_values", "P01",
    "a dimension response with an empty value between others",
    "printing a parsed response drops its empty values, so the following ones shift",
    [("pyown/messages/dimension.py",
      """{'*'.join([str(value) for value in self.values])}##\"""",
      """{'*'.join([str(value) for value in self.values if value != ''])}##\"""")],
    """
from pyown.messages import parse_message
for f in ("*#13**0*12*30**001##", "*#13**0*12*30*05*001##", "*#13**15*200##"):
    m = parse_message(f)
    assert str(m) == f, (f, str(m))
    assert parse_message(str(m)) == m
""")

bug("status_request_needs_digits", "P02",
    "a status request addressed to a group (#n) or to nothing",
    "a status request whose address starts with # or is empty is read as a generic message",
    [("pyown/messages/status.py",
      r"""r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*##$")""",
      r"""r"^\*#[0-9#]+\*[0-9]+(?:#[0-9]*)*##$")""")],
    """
from pyown.messages import parse_message, StatusRequest
for f, w in (("*#1*12##", "12"), ("*#1*#4##", "#4"), ("*#1*21#4#01##", "21#4#01"), ("*#13*##", "")):
    m = parse_message(f)
    assert isinstance(m, StatusRequest) and m.where == w, (f, repr(m))
""")

bug("two_frames_accepted", "P03",
    "a text with two complete frames",
    "a text of several frames is accepted as one generic message",
    [("pyown/messages/base.py",
      "    if message.count(BaseMessage.suffix) != 1:\n",
      "    if BaseMessage.suffix not in message:\n")],
    """
from pyown.messages import parse_message
from pyown.exceptions import ParseError
for t in ("*1*1*12##*1*0*12##", "*1*1*12", "*1*1##*12##", "1*1*12##"):
    try:
        m = parse_message(t)
    except ParseError:
        continue
    raise SystemExit("accepted %r as %r" % (t, m))
""")

bug("normal_regex_backtracks", "P04",
    "a long digit string in a frame that is not a normal message",
    "the pattern of normal messages takes exponential time on crafted frames",
    [("pyown/messages/normal.py",
      r"""r"^\*[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*(?:#[0-9]*)*##$")""",
      r"""r"^\*[0-9#]+\*(?:#?[0-9]*)*\*(?:#?[0-9]*)*##$")""")],
    """
import signal
from pyown.messages import parse_message
signal.alarm(20)
for f in ("*1*1*12##", "*1*" + "1" * 40 + "##", "*1*1*" + "1" * 40 + "*0##"):
    assert str(parse_message(f)) == f
""")

bug("tag_accepts_unicode_digits", "P05",
    "a tag text with a digit outside ASCII",
    "tags accept digits of other scripts and superscripts, which can not be sent",
    [("pyown/tags/base.py",
      "    return all(c in VALID_TAG_CHARS for c in tag)\n",
      "    return all(c.isdigit() or c == \"#\" for c in tag)\n")],
    """
from pyown.tags import What, Where, Dimension
from pyown.exceptions import InvalidTag
for cls in (What, Where, Dimension):
    assert str(cls("12#3")) == "12#3"
    for t in ("1a", "1\\u0663", "\\u00b2", "1*"):
        try:
            cls(t)
        except InvalidTag:
            continue
        raise SystemExit("accepted %r" % t)
""")

bug("lifo_queue", "P06",
    "two messages received before the first is read",
    "messages waiting to be read are delivered newest first",
    [("pyown/protocol/protocol.py",
      "Queue[BaseMessage] = asyncio.Queue()\n",
      "Queue[BaseMessage] = asyncio.LifoQueue()\n")],
    """
import h
async def main():
    async with h.GW() as gw:
        c = await gw.client(h.SessionType.EventSession)
        await gw.push("*1*1*11##")
        assert str(await c.read_message()) == "*1*1*11##"
        await gw.push("*1*1*12##*1*0*12##*1*1*13##")
        got = [str(await c.read_message()) for _ in range(3)]
        assert got == ["*1*1*12##", "*1*0*12##", "*1*1*13##"], got
        await c.close()
h.run(main)
""")

bug("bounded_queue", "P06",
    "a burst of more than 64 messages before the reader runs",
    "messages beyond the capacity of the queue are lost (and the connection fails)",
    [("pyown/protocol/protocol.py",
      "Queue[BaseMessage] = asyncio.Queue()\n",
      "Queue[BaseMessage] = asyncio.Queue(maxsize=64)\n")],
    """
import h
async def main():
    async with h.GW() as gw:
        c = await gw.client(h.SessionType.EventSession)
        want = ["*1*1*%d##" % (100 + i) for i in range(150)]
        await gw.push("".join(want), 0.2)
        got = [str(await c.read_message(timeout=1)) for _ in want]
        assert got == want
        await c.close()
h.run(main)
""")

bug("open_case7_loses_top_bit", "P08",
    "a nonce digit 7 applied while the top bit of the accumulator is set",
    "the OPEN answer is wrong when bit 31 is set at a digit 7",
    [("pyown/auth/open.py",
      "            num2 = (num2 & 0xFF000000) >> 8\n",
      "            num2 = (num2 & 0x7F000000) >> 8\n")],
    """
from pyown.auth.open import own_calc_pass
# digit 9 complements, so a small password has its top bit set afterwards
def swap(x):
    return ((x & 0xFF) << 24) | ((x & 0xFF00)) | ((x & 0xFF0000) >> 16) | ((x & 0xFF000000) >> 8)
for p in (12345, 1, 4294967295, 2147483648):
    assert own_calc_pass(str(p), "7") == str(swap(p)), p
    assert own_calc_pass(str(p), "97") == str(swap(~p & 0xFFFFFFFF)), p
""")

bug("hex_digit_f", "P09",
    "the hexadecimal digit f",
    "f is coded as 10 digits of another value, so coding is not invertible",
    [("pyown/auth/hmac.py",
      "        value = int(c, 16)\n        out += str(value // 10) + str(value % 10)\n",
      "        value = int(c, 15) if c not in \"fF\" else 14\n        out += str(value // 10) + str(value % 10)\n")],
    """
from pyown.auth.hmac import hex_to_digits, digits_to_hex
for c in "0123456789abcdef":
    assert hex_to_digits("0" + c) == "00%02d" % int(c, 16), c
    assert hex_to_digits(c.upper()) == hex_to_digits(c)
    assert digits_to_hex(hex_to_digits(c + "a")) == c + "a"
""")

bug("hmac_prefix_accepted", "P10",
    "a gateway (or an impostor) that answers with a prefix of the proof, such as an empty one",
    "a gateway that does not know the password is accepted",
    [("pyown/auth/hmac.py",
      "    return compare_digest(hmac1, hmac2)\n",
      "    return compare_digest(hmac1[: len(hmac2)], hmac2)\n")],
    """
import asyncio, hashlib, h
from pyown.exceptions import InvalidAuthentication
dig = lambda s: "".join("%02d" % int(c, 16) for c in s)
undig = lambda s: "".join("%x" % int(s[i:i + 2]) for i in range(0, len(s), 2))
RA = hashlib.sha256(b"ra").hexdigest()
async def attempt(cut):
    def answer(f):
        if f == h.ACK:
            if gw.step:
                return None
            gw.step = 1
            return "*#" + dig(RA) + "##"
        rb = undig(f[2:-2].split("*")[0])
        kab = hashlib.sha256(b"secret").hexdigest()
        proof = hashlib.sha256((RA + rb + kab).encode()).hexdigest()
        return "*#" + dig(proof[:cut]) + "##"
    gw = h.GW(answer)
    gw.step = 0
    gw.session = lambda f: "*98*2##"
    async with gw:
        c = await gw.client(password="secret")
        await c.close()
async def main():
    await attempt(64)
    for cut in (0, 1, 8, 63):
        try:
            await attempt(cut)
        except (InvalidAuthentication, TimeoutError):
            continue
        raise SystemExit("accepted %d digits of the proof" % cut)
h.run(main)
""")

bug("open_only_nack_refused", "P11",
    "a gateway that answers the OPEN password with something that is neither ACK nor NACK",
    "the session is reported open although the gateway never acknowledged it",
    [("pyown/client/base.py",
      """        resp = await self.read_message()

        if resp.type != MessageType.ACK:
            raise InvalidAuthentication("Invalid password")
""",
      """        resp = await self.read_message()

        if resp.type == MessageType.NACK:
            raise InvalidAuthentication("Invalid password")
""")],
    """
import h
from pyown.exceptions import InvalidAuthentication
async def attempt(reply):
    gw = h.GW(lambda f: reply)
    gw.session = lambda f: "*#603356072##"
    async with gw:
        c = await gw.client(password="12345")
        await c.close()
async def main():
    await attempt(h.ACK)
    for r in (h.NACK, "*#603356072##", "*1*1*12##", "*98*2##"):
        try:
            await attempt(r)
        except InvalidAuthentication:
            continue
        raise SystemExit("opened on %r" % r)
h.run(main)
""")

bug("close_keeps_protocol", "P12",
    "a client that is closed and then used again without a start",
    "a closed client still accepts messages and reads instead of refusing them",
    [("pyown/client/base.py",
      "        self._protocol = None\n        self._transport = None\n\n    @abstractmethod",
      "        self._transport = None\n\n    @abstractmethod")],
    """
import h
from pyown.exceptions import InvalidSession
from pyown.items import Light
from pyown.messages import parse_message
async def main():
    async with h.GW() as gw:
        c = await gw.client()
        await c.close()
        for op in (lambda: c.send_message(parse_message("*1*1*12##")), lambda: c.read_message(timeout=1), Light(c, "12").turn_on):
            try:
                await op()
            except InvalidSession:
                continue
            except TimeoutError:
                pass
            raise SystemExit("a closed client worked")
h.run(main)
""")

bug("old_command_session_events", "P12",
    "a client opened as an old command session",
    "an old command session refuses to send and accepts the event loop",
    [("pyown/client/base.py",
      """            self._session_type == SessionType.CommandSession
            or self._session_type == SessionType.OldCommandSession
""",
      """            self._session_type == SessionType.CommandSession
""")],
    """
import h
from pyown.messages import parse_message
async def main():
    for kind in (h.SessionType.CommandSession, h.SessionType.OldCommandSession):
        async with h.GW() as gw:
            c = await gw.client(kind)
            await c.send_message(parse_message("*1*1*12##"))
            await c.read_message()
            assert gw.got == ["*1*1*12##"]
            await c.close()
h.run(main)
""")

bug("pause_checked_once", "P13",
    "a transport paused for longer than the retry delay while a message is being sent",
    "the message is written although the transport is still paused",
    [("pyown/protocol/protocol.py",
      "        while self._lock.locked():\n            await asyncio.sleep(delay)\n",
      "        if self._lock.locked():\n            await asyncio.sleep(delay)\n")],
    """
import asyncio, h
from pyown.protocol import OWNProtocol
from pyown.messages import parse_message
class T(asyncio.Transport):
    def __init__(self):
        super().__init__()
        self.out = []
    def write(self, data):
        self.out.append(bytes(data))
async def main():
    loop = asyncio.get_running_loop()
    p, t = OWNProtocol(loop.create_future(), loop.create_future()), T()
    p.connection_made(t)
    p.pause_writing()
    s = asyncio.create_task(p.send_message(parse_message("*1*1*12##")))
    await asyncio.sleep(0.5)
    assert t.out == [] and not s.done()
    p.resume_writing()
    await asyncio.wait_for(s, 5)
    assert t.out == [b"*1*1*12##"]
h.run(main)
""")

bug("single_request_leaves_answers", "P14",
    "two requests in a row on the same client",
    "the answers after the first one stay queued and are taken for the answers of the next request",
    [("pyown/items/base.py",
      "        messages = [msg async for msg in self.send_dimension_request(what)]\n",
      """        messages = []
        async for msg in self.send_dimension_request(what):
            messages.append(msg)
            break
""")],
    """
import h
from pyown.items import Gateway
async def main():
    ans = {"*#13**10##": "*#13**10*192*168*0*35##" + h.ACK, "*#13**15##": "*#13**15*200##" + h.ACK}
    async with h.GW(ans.get) as gw:
        c = await gw.client()
        g = Gateway(c)
        assert str(await g.get_ip()) == "192.168.0.35"
        assert (await g.get_model()).value == "200"
        assert str(await g.get_ip()) == "192.168.0.35"
        await c.close()
h.run(main)
""")

bug("status_ends_on_nack", "P14",
    "a status request that the gateway refuses after some answers",
    "a refused request ends as if it had succeeded",
    [("pyown/items/base.py",
      """            resp = await self._read_message()
            self._check_nack(resp)

            # when the server responds with an ACK message, it means that the server has finished sending the responses
            if resp.type == MessageType.ACK:
                break

            if not isinstance(resp, NormalMessage):
""",
      """            resp = await self._read_message()

            # when the server responds with an ACK message, it means that the server has finished sending the responses
            if resp.type in (MessageType.ACK, MessageType.NACK):
                break

            if not isinstance(resp, NormalMessage):
""")],
    """
import h
from pyown.items import Light
from pyown.exceptions import ResponseError
async def main():
    async with h.GW(lambda f: "*1*1*12##" + gw.end) as gw:
        c = await gw.client()
        light = Light(c, "12")
        gw.end = h.ACK
        assert [(str(w), s) async for w, s in light.get_status()] == [("12", True)]
        gw.end = h.NACK
        try:
            [x async for x in light.get_status()]
        except ResponseError:
            pass
        else:
            raise SystemExit("a refused request succeeded")
        await c.close()
h.run(main)
""")

bug("temporization_sixty", "P15",
    "a temporization of exactly 60 seconds",
    "an out of range argument is sent to the gateway",
    [("pyown/items/lighting/base.py",
      "        if hour >= 24 or minute >= 60 or second >= 60:\n",
      "        if hour >= 24 or minute >= 60 or second > 60:\n")],
    """
import h
from pyown.items import Light
async def main():
    async with h.GW() as gw:
        c = await gw.client()
        light = Light(c, "12")
        await light.temporization_command(23, 59, 59)
        assert gw.got == ["*#1*12*#2*23*59*59##"], gw.got
        for a in ((24, 0, 0), (0, 60, 0), (0, 0, 60)):
            try:
                await light.temporization_command(*a)
            except ValueError:
                continue
            raise SystemExit("%r was sent" % (a,))
        await c.close()
h.run(main)
""")

bug("dial_swapped", "P15",
    "the dial positions (3,4) and (4,3) only",
    "two dial positions send each other's command",
    [("pyown/items/camera/camera.py",
      "    (3, 4): WhatCamera.DISPLAY_DIAL_34,\n",
      "    (3, 4): WhatCamera.DISPLAY_DIAL_43,\n"),
     ("pyown/items/camera/camera.py",
      "    (4, 3): WhatCamera.DISPLAY_DIAL_43,\n",
      "    (4, 3): WhatCamera.DISPLAY_DIAL_34,\n")],
    """
import h
from pyown.items.camera import Camera
async def main():
    async with h.GW() as gw:
        c = await gw.client()
        cam = Camera(c, "4000")
        for x in range(1, 5):
            for y in range(1, 5):
                await cam.display_dial(x, y)
                assert gw.got[-1] == "*7*3%d%d##" % (x, y), (x, y, gw.got[-1])
        await c.close()
h.run(main)
""")

bug("tz_one_digit", "P16",
    "a timezone of ten hours or more",
    "the tens of the timezone read from the gateway are dropped",
    [("pyown/items/gateway/gateway.py",
      "        hours = int(t.string[1:3])\n",
      "        hours = int(t.string[2:3])\n")],
    """
import datetime as dt
import h
from pyown.items import Gateway
async def main():
    async with h.GW(lambda f: "*#13**0*12*30*45*%s##" % gw.tz + h.ACK) as gw:
        c = await gw.client()
        g = Gateway(c)
        for tz, hours in (("001", 1), ("105", -5), ("012", 12), ("110", -10)):
            gw.tz = tz
            t = await g.get_time()
            assert t == dt.time(12, 30, 45, tzinfo=dt.timezone(dt.timedelta(hours=hours))), (tz, t)
        await c.close()
h.run(main)
""")

bug("weekday_monday", "P16",
    "setting the date on a Sunday",
    "Sunday is sent as 07 instead of 00",
    [("pyown/items/gateway/gateway.py",
      """        if bus_date.weekday() == 6:
            w = Value("00")
""",
      """        if bus_date.weekday() == 7:
            w = Value("00")
""")],
    """
import datetime as dt
import h
from pyown.items import Gateway
async def main():
    async with h.GW() as gw:
        c = await gw.client()
        g = Gateway(c)
        for d in range(1, 15):
            day = dt.date(2024, 9, d)
            await g.set_date(day)
            assert gw.got[-1] == "*#13**#1*%02d*%02d*09*2024##" % (day.isoweekday() % 7, d), gw.got[-1]
        await c.close()
h.run(main)
""")

bug("netmask_raw_octets", "P17",
    "a gateway that sends the octets of the net mask with leading zeros",
    "the net mask is not a valid one and the network can not be computed",
    [("pyown/items/gateway/gateway.py",
      """        return f"{int(oct1.string)}.{int(oct2.string)}.{int(oct3.string)}.{int(oct4.string)}\"""",
      """        return f"{oct1.string}.{oct2.string}.{oct3.string}.{oct4.string}\"""")],
    """
import h
from pyown.items import Gateway
async def main():
    ans = {"*#13**10##": "*#13**10*192*168*001*035##" + h.ACK}
    async with h.GW(lambda f: ans.get(f) or "*#13**11*255*255*255*%s##" % gw.last + h.ACK) as gw:
        c = await gw.client()
        g = Gateway(c)
        for last in ("0", "000"):
            gw.last = last
            assert await g.get_netmask() == "255.255.255.0", last
            assert str(await g.get_netinfo()) == "192.168.1.0/24"
        await c.close()
h.run(main)
""")

bug("stopgo_first_24h_mask", "P18",
    "a Stop&Go device whose check is off and that was not opened in the first 24 hours",
    "one status flag is reported set because of another one",
    [("pyown/items/energy/stop_go.py",
      "bool(val & 0x400)  # bit 11\n",
      "bool(val & 0x500)  # bit 11\n")],
    """
import h
from pyown.items.energy import StopGo
NAMES = ("open failure block open_cc open_ground_fault open_vmax self_test_off auto_reset_off check_off "
         "waiting_closing first_24h_open power_fail_down power_fail_up").split()
async def main():
    async with h.GW(lambda f: "*#18*12*250*%s##" % format(gw.mask, "013b") + h.ACK) as gw:
        c = await gw.client()
        s = StopGo(c, "12")
        for i, n in enumerate(NAMES):
            gw.mask = 1 << i
            st = await s.request_status()
            assert [k for k in NAMES if getattr(st, k)] == [n], (n, st)
        await c.close()
h.run(main)
""")

bug("totalizer_fields_by_name", "P18",
    "a totalizer reset on a day other than its month number",
    "day and month of the reset moment are exchanged when both are valid months",
    [("pyown/items/energy/energy.py",
      "        d = message.values[1].string\n        m = message.values[2].string\n",
      "        d, m = sorted((message.values[1].string, message.values[2].string), key=int, reverse=True)\n")],
    """
import datetime as dt
import h
from pyown.items.energy import EnergyManagement
async def main():
    async with h.GW(lambda f: "*#18*51*72#1*1234*%s*2024*10*05##" % gw.dm + h.ACK) as gw:
        c = await gw.client()
        e = EnergyManagement(c, "51")
        for d, m in ((25, 3), (11, 4), (3, 8), (5, 5)):
            gw.dm = "%02d*%02d" % (d, m)
            when, val = await e.get_totalizers(1)
            assert (when, val) == (dt.datetime(2024, m, d, 10, 5), 1234.0), (d, m, when)
        await c.close()
h.run(main)
""")

bug("last_year_registered_as_current", "P19",
    "callbacks for the monthly totalizers of the last year",
    "they are called for the current year instead",
    [("pyown/items/energy/energy.py",
      """            DimensionEnergy.MONTHLY_TOTALIZERS_LAST_YEAR_32BIT, []
        ).append(callback)
""",
      """            DimensionEnergy.MONTHLY_TOTALIZERS_CURRENT_YEAR_32BIT, []
        ).append(callback)
""")],
    """
import asyncio, h
from pyown.items.energy import EnergyManagement
async def main():
    got = []
    async def cur(item, month, day, val): got.append(("cur", str(item.where), month, day, val))
    async def last(item, month, day, val): got.append(("last", str(item.where), month, day, val))
    EnergyManagement.on_monthly_totalizers_current_year(cur)
    EnergyManagement.on_monthly_totalizers_last_year(last)
    async with h.GW() as gw:
        c = await gw.client(h.SessionType.EventSession)
        t = asyncio.create_task(c.loop())
        await gw.push("*#18*51*513#4*12*77##*#18*51*514#4*12*88##", 0.2)
        await c.close()
        await asyncio.wait([t], timeout=2)
    assert got == [("cur", "51", 4, 12, 77), ("last", "51", 4, 12, 88)], got
h.run(main)
""")

bug("dispatch_waits_for_callbacks", "P20",
    "a slow callback and a later event",
    "a slow callback delays the following events",
    [("pyown/client/client.py",
      "                    self._loop.create_task(self._check_task_result(tasks))\n",
      "                    await self._check_task_result(tasks)\n")],
    """
import asyncio, h
from pyown.items import Light
async def main():
    got = []
    async def cb(item, on):
        got.append((str(item.where), on))
        if str(item.where) == "11":
            await asyncio.sleep(3)
    Light.on_status_change(cb)
    async with h.GW() as gw:
        c = await gw.client(h.SessionType.EventSession)
        t = asyncio.create_task(c.loop())
        await gw.push("*1*1*11##*1*0*12##", 0.5)
        assert got == [("11", True), ("12", False)], got
        await c.close()
        await asyncio.wait([t], timeout=2)
h.run(main)
""")

bug("short_event_kills_loop", "P20",
    "an event with fewer values than documented",
    "such an event ends the event loop",
    [("pyown/client/client.py",
      "                except Exception as e:\n",
      "                except (TypeError, ValueError) as e:\n")],
    """
import asyncio, h
from pyown.items import Light
async def main():
    got = []
    async def cb(item, on): got.append((str(item.where), on))
    Light.on_status_change(cb)
    async with h.GW() as gw:
        c = await gw.client(h.SessionType.EventSession)
        t = asyncio.create_task(c.loop())
        await gw.push("*#1*11*2*1##", 0.2)
        await gw.push("*1*1*12##", 0.2)
        assert got == [("12", True)] and not t.done(), got
        await c.close()
        await asyncio.wait([t], timeout=2)
h.run(main)
""")

bug("items_cached_by_value", "P21",
    "two items whose addresses differ only in the interface",
    "devices behind different interfaces share one item",
    [("pyown/client/client.py",
      """        if (who, where) in self._items:
            return self._items[(who, where)]
""",
      """        if (who, where.tag) in self._items:
            return self._items[(who, where.tag)]
"""),
     ("pyown/client/client.py",
      "                item = self._items[(who, where)] = factory(client, where)\n",
      "                item = self._items[(who, where.tag)] = factory(client, where)\n")],
    """
import h
from pyown.tags import Who, Where
async def main():
    c = h.Client("127.0.0.1", 1, "1")
    a, b = (c.get_item(Who.LIGHTING, Where(w), client=c) for w in ("12", "12#4#01"))
    assert a is not b and str(a.where) == "12" and str(b.where) == "12#4#01"
    assert c.get_item(Who.LIGHTING, Where("12#4#01"), client=c) is b
h.run(main)
""")

bug("loss_with_error_not_signalled", "P22",
    "a connection that is lost with an error (reset by the gateway)",
    "the event loop hangs when the connection fails",
    [("pyown/protocol/protocol.py",
      "        else:\n            self._on_connection_end.set_exception(exc)\n",
      "        elif not isinstance(exc, ConnectionError):\n            self._on_connection_end.set_exception(exc)\n")],
    """
import asyncio, socket, struct, h
async def main():
    async with h.GW() as gw:
        c = await gw.client(h.SessionType.EventSession)
        t = asyncio.create_task(c.loop())
        await asyncio.sleep(0.1)
        s = gw.w.get_extra_info("socket")
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        gw.w.transport.abort()
        await asyncio.wait([t], timeout=3)
        assert t.done(), "the event loop still runs"
        await c.close()
h.run(main)
""")

bug("address_09_unknown", "P23",
    "an address of ambient 9 written with two digits (09 and a point)",
    "the address is not recognised",
    [("pyown/tags/where.py",
      '"06", "07", "08", "09")):\n',
      '"06", "07", "08")):\n')],
    """
from pyown.tags import Where
from pyown.tags.where import WhereType
for w in ("0111", "0812", "0903", "0915", "12", "0015", "1015"):
    assert Where(w).type == WhereType.LIGHT_POINT, w
for w in ("0", ):
    assert Where(w).type == WhereType.GENERAL
""")

bug("equality_ignores_kind", "P24",
    "comparing a dimension writing with a response of the same fields",
    "a request to write and the answer compare equal although their texts differ",
    [("pyown/messages/base.py",
      """        if isinstance(other, self.__class__):
            return self._type == other._type and self._tags == other._tags
""",
      """        if isinstance(other, BaseMessage):
            return self._tags == other._tags
""")],
    """
from pyown.messages import parse_message
a, b = parse_message("*#13**#0*12*30*00*001##"), parse_message("*#13**0*12*30*00*001##")
assert a != b and b != a and not (a == b) and not (b == a)
assert a == parse_message(str(a)) and hash(a) == hash(parse_message(str(a)))
""")

bug("tags_not_copied", "P24",
    "a caller that changes the list of tags of a generic message",
    "changing the tags returned by a message changes the message",
    [("pyown/messages/base.py",
      "        return copy.deepcopy(self._tags)\n",
      "        return self._tags if isinstance(self._tags, list) else copy.deepcopy(self._tags)\n")],
    """
from pyown.messages import parse_message
m = parse_message("*99*9##")
t = m.tags
assert list(t) == ["99", "9"]
t[1] = "0"
assert str(m) == "*99*9##" and list(m.tags) == ["99", "9"]
""")

bug("meter_with_parameter", "P25",
    "a power meter address with a parameter",
    "an address that is no energy address gives an item",
    [("pyown/items/energy/energy.py",
      """        elif self.where.string.startswith("5") and self.where.string[1:].isnumeric():
""",
      """        elif self.where.string.startswith("5") and self.where.tag[1:].isnumeric():
""")],
    """
import h
from pyown.items.energy import EnergyManagement
from pyown.exceptions import InvalidTag
async def main():
    c = h.Client("127.0.0.1", 1, "1")
    for w in ("11", "51", "71#0", "5255"):
        EnergyManagement(c, w)
    for w in ("51#0", "51#4#01", "71", "71#1", "5", "61"):
        try:
            EnergyManagement(c, w)
        except InvalidTag:
            continue
        raise SystemExit("item created at %r" % w)
h.run(main)
""")

bug("read_shielded", "P26",
    "a read that times out (or is cancelled) before a message arrives",
    "the abandoned read swallows the next message",
    [("pyown/protocol/protocol.py",
      "        messages = await self._messages_queue.get()\n",
      "        messages = await asyncio.shield(self._messages_queue.get())\n")],
    """
import h
async def main():
    async with h.GW() as gw:
        c = await gw.client(h.SessionType.EventSession)
        try:
            await c.read_message(timeout=0.2)
        except TimeoutError:
            pass
        await gw.push("*1*1*11##*1*1*12##")
        assert [str(await c.read_message(timeout=1)) for _ in range(2)] == ["*1*1*11##", "*1*1*12##"]
        await c.close()
h.run(main)
""")

bug("malformed_drops_queue", "P07",
    "malformed data received while earlier messages wait to be read",
    "the valid messages before the malformed data are thrown away",
    [("pyown/protocol/protocol.py",
      "        except ParseError as e:\n            log.warning(f\"Received invalid message: {e}\")\n            raise e\n",
      "        except ParseError as e:\n            log.warning(f\"Received invalid message, dropping the queue: {e}\")\n            while not self._messages_queue.empty():\n                self._messages_queue.get_nowait()\n            raise e\n")],
    """
import h
async def main():
    async with h.GW() as gw:
        c = await gw.client(h.SessionType.EventSession)
        await gw.push("*1*1*11##*1*0*12##*1*x##", 0.2)
        assert [str(await c.read_message(timeout=1)) for _ in range(2)] == ["*1*1*11##", "*1*0*12##"]
        await c.close()
h.run(main)
""")
