SPECS = []


def bug(ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO):
    SPECS.append(dict(ID=ID, PROPERTY=PROPERTY, NEEDS=NEEDS, BREAKS=BREAKS, EDITS=EDITS, DEMO=DEMO))


bug("tag_isdecimal", "P05",
    "a tag text with a decimal digit of another script",
    "tags accept decimal digits of other scripts, which can not be sent",
    [("pyown/tags/base.py",
      "    return all(c in VALID_TAG_CHARS for c in tag)\n",
      "    return tag.replace(\"#\", \"0\").isdecimal() or tag == \"\"\n")],
    """
from pyown.tags import What, Where, Dimension
from pyown.exceptions import InvalidTag
for cls in (What, Where, Dimension):
    assert str(cls("12#3")) == "12#3"
    for t in ("1a", "1\\u0663", "1*"):
        try:
            cls(t)
        except InvalidTag:
            continue
        raise SystemExit("accepted %r" % t)
""")

bug("pause_gives_up", "P13",
    "a transport that stays paused for more than five seconds",
    "a message sent while the transport is paused is written anyway after some seconds, while it is still paused",
    [("pyown/protocol/protocol.py",
      "        while self._lock.locked():\n            await asyncio.sleep(delay)\n",
      "        for _ in range(60):\n            if not self._lock.locked():\n                break\n            await asyncio.sleep(delay)\n")],
    """
import asyncio, h
from pyown.protocol import OWNProtocol
from pyown.messages import parse_message
class T(asyncio.Transport):
    out = []
    def write(self, data): self.out.append(data)
async def main():
    loop = asyncio.get_running_loop()
    p = OWNProtocol(loop.create_future(), loop.create_future())
    t = T(); p.connection_made(t)
    p.pause_writing()
    s = asyncio.create_task(p.send_message(parse_message("*1*1*12##")))
    await asyncio.sleep(8)
    assert t.out == [], "written while paused"
    p.resume_writing()
    await asyncio.wait_for(s, 5)
    assert t.out == [b"*1*1*12##"]
h.run(main)
""")

bug("callbacks_time_out", "P20",
    "a callback that takes more than a few seconds",
    "a slow callback is cancelled, with all the other callbacks of its event",
    [("pyown/client/client.py",
      "        results = await asyncio.gather(*tasks, return_exceptions=True)\n",
      "        results = await asyncio.wait_for(asyncio.gather(*tasks, return_exceptions=True), 3)\n")],
    """
import asyncio, h
from pyown.client import SessionType
from pyown.items import Light
async def main():
    seen = []
    async def slow(item, on):
        await asyncio.sleep(4)
        seen.append((str(item.where), on))
    Light.on_status_change(slow)
    async with h.GW() as g:
        c = await g.client(SessionType.EventSession)
        t = asyncio.create_task(c.loop())
        await asyncio.sleep(0.1)
        await g.push("*1*1*12##")
        await asyncio.sleep(5)
        assert seen == [("12", True)], seen
        t.cancel()
        await c.close()
h.run(main)
""")

bug("nonce_truncated", "P08",
    "a nonce of more than ten digits",
    "only the first ten digits of the nonce enter the OPEN answer",
    [("pyown/auth/open.py", "    for c in nonce:\n", "    for c in nonce[:10]:\n")],
    """
from pyown.auth.open import own_calc_pass
def ref(p, nonce):
    M = 0xFFFFFFFF; rol = lambda x, n: ((x << n) | (x >> (32 - n))) & M
    x = p & M
    for c in nonce:
        if c == "1": x = rol(x, 25)
        elif c == "2": x = rol(x, 28)
        elif c == "3": x = rol(x, 29)
        elif c == "4": x = rol(x, 1)
        elif c == "5": x = rol(x, 5)
        elif c == "6": x = rol(x, 12)
        elif c == "7": x = (x & 0xFF00) | ((x & 0xFF) << 24) | ((x & 0xFF0000) >> 16) | ((x & 0xFF000000) >> 8)
        elif c == "8": x = ((x & 0xFFFF) << 16) | (x >> 24) | ((x & 0xFF0000) >> 8)
        elif c == "9": x = ~x & M
    return str(x)
for p, n in ((12345, "603356072"), (12345, "410501656"), (7654321, "12345678912"), (99999999, "100000000000000000009")):
    assert own_calc_pass(str(p), n) == ref(p, n), (p, n)
""")

bug("uptime_wraps", "P17",
    "an uptime of a year or more",
    "the days of the uptime wrap around after a year",
    [("pyown/items/gateway/gateway.py",
      "        d = int(resp.values[0].string)\n        h = int(resp.values[1].string)\n        m = int(resp.values[2].string)\n",
      "        d = int(resp.values[0].string) % 365\n        h = int(resp.values[1].string)\n        m = int(resp.values[2].string)\n")],
    """
import datetime, h
from pyown.items import Gateway
async def main():
    for d in (0, 3, 364, 365, 1000):
        async with h.GW(lambda f: f"*#13**19*{d}*2*3*4##" + h.ACK) as g:
            c = await g.client()
            u = await Gateway(c).get_uptime()
            assert u == datetime.timedelta(days=d, hours=2, minutes=3, seconds=4), (d, u)
            await c.close()
h.run(main)
""")

bug("items_evicted", "P21",
    "a client that has handed out more than 64 items",
    "an item handed out long ago is forgotten and handed out again as another object",
    [("pyown/client/client.py",
      "                item = self._items[(who, where)] = factory(client, where)\n",
      "                item = factory(client, where)\n                self._items = dict([*self._items.items()][-63:]) | {(who, where): item}\n")],
    """
import h
from pyown.client import Client
from pyown.tags import Who, Where
async def main():
    c = Client("127.0.0.1", 1, "1")
    first = [c.get_item(Who.LIGHTING, Where(str(i)), client=c) for i in range(11, 100)]
    again = [c.get_item(Who.LIGHTING, Where(str(i)), client=c) for i in range(11, 100)]
    assert all(a is b for a, b in zip(first, again)), "another object for the same address"
h.run(main)
""")

bug("ten_callbacks", "P19",
    "more than ten callbacks registered for the same kind of event",
    "only the first ten callbacks of an event are called",
    [("pyown/items/automation/automation.py",
      "                cls._event_callbacks.get(AutomationEvents.ALL, []),\n",
      "                cls._event_callbacks.get(AutomationEvents.ALL, [])[:10],\n")],
    """
import asyncio, h
from pyown.client import SessionType
from pyown.items import Automation
async def main():
    seen = []
    def make(i):
        async def cb(item, state): seen.append(i)
        return cb
    for i in range(25):
        Automation.on_status_change(make(i))
    async with h.GW() as g:
        c = await g.client(SessionType.EventSession)
        t = asyncio.create_task(c.loop())
        await asyncio.sleep(0.1)
        await g.push("*2*1*12##", 0.3)
        assert sorted(seen) == list(range(25)), seen
        t.cancel()
        await c.close()
h.run(main)
""")

bug("event_hmac_ack_enough", "P10",
    "an event session with HMAC and a gateway that answers the proof with ACK",
    "on an event session the gateway need not prove that it knows the password",
    [("pyown/client/base.py",
      "        if resp.type == MessageType.NACK:\n            raise InvalidAuthentication(\"Invalid password\")\n",
      "        if resp.type == MessageType.ACK and not self.is_cmd_session():\n            return\n        elif resp.type == MessageType.NACK:\n            raise InvalidAuthentication(\"Invalid password\")\n")],
    """
import asyncio, h
from pyown.client import SessionType
from pyown.exceptions import InvalidAuthentication
class G(h.GW):
    def session(self, f):
        return "*98*2##"
async def main():
    for kind in (SessionType.CommandSession, SessionType.EventSession):
        n = []
        def answer(f):
            n.append(f)
            return "*#" + "01" * 64 + "##" if len(n) == 1 else h.ACK
        async with G(answer) as g:
            try:
                await g.client(kind)
            except InvalidAuthentication:
                continue
            raise SystemExit("opened without the gateway's proof: %s" % kind)
h.run(main)
""")

bug("overflow_kills_loop", "P20",
    "an uptime event with a number of days that no timedelta can hold",
    "a well-formed event whose values overflow ends the event loop",
    [("pyown/client/client.py",
      "                except Exception as e:\n                    log.error(\n",
      "                except (ValueError, LookupError, TypeError) as e:\n                    log.error(\n")],
    """
import asyncio, h
from pyown.client import SessionType
from pyown.items import Light
async def main():
    seen = []
    async def cb(item, on): seen.append(on)
    Light.on_status_change(cb)
    async with h.GW() as g:
        c = await g.client(SessionType.EventSession)
        t = asyncio.create_task(c.loop())
        await asyncio.sleep(0.1)
        for f in ("*#13**19*1##", "*#13**19*x##".replace("x", ""), "*#13**19*99999999999*1*1*1##"):
            await g.push(f)
        await g.push("*1*1*12##", 0.2)
        assert seen == [True], seen
        t.cancel()
        await c.close()
h.run(main)
""")

bug("gateway_date_time_cut", "P19",
    "a date and time event sent by the gateway as a writing",
    "the last value of a gateway event that arrives as a writing is lost",
    [("pyown/items/gateway/gateway.py",
      "                (message.who, message.where, message.dimension, *message.values)\n",
      "                (message.who, message.where, message.dimension, *message.values[:7])\n")],
    """
import asyncio, datetime, h
from pyown.client import SessionType
from pyown.items import Gateway
from pyown.items.gateway import WhatGateway
async def main():
    seen = []
    async def cb(item, v): seen.append(v)
    Gateway.register_callback(WhatGateway.DATE_TIME, cb)
    Gateway.register_callback(WhatGateway.DATE, cb)
    async with h.GW() as g:
        c = await g.client(SessionType.EventSession)
        t = asyncio.create_task(c.loop())
        await asyncio.sleep(0.1)
        await g.push("*#13**#1*03*18*11*2026##", 0.2)
        await g.push("*#13**#22*12*30*05*001*03*18*11*2026##", 0.2)
        tz = datetime.timezone(datetime.timedelta(hours=1))
        assert seen == [datetime.date(2026, 11, 18), datetime.datetime(2026, 11, 18, 12, 30, 5, tzinfo=tz)], seen
        t.cancel()
        await c.close()
h.run(main)
""")

bug("today_month_lost", "P15",
    "the daily totalizers asked with neither day nor month",
    "when both the day and the month are left out the month is sent as None and refused",
    [("pyown/items/energy/energy.py",
      "            day = datetime.now().day\n        if month is None:\n            month = datetime.now().month\n",
      "            day = datetime.now().day\n        elif month is None:\n            month = datetime.now().month\n")],
    """
import datetime, h
from pyown.items import EnergyManagement
async def main():
    async with h.GW() as g:
        c = await g.client()
        e = EnergyManagement(c, "71#0")
        n = datetime.datetime.now()
        for a, w in (((5, 6), "57#6#5"), ((None, 6), f"57#6#{n.day}"), ((5, None), f"57#{n.month}#5"), ((None, None), f"57#{n.month}#{n.day}")):
            g.got.clear()
            await e.start_sending_daily_totalizers_hourly(*a)
            assert g.got == [f"*18*{w}*71#0##"], (a, g.got)
        await c.close()
h.run(main)
""")

bug("who_description_shared", "P28",
    "looking at the descriptions of both sound diffusion subsystems",
    "two subsystems have the same description",
    [("pyown/tags/who.py", '"Sound diffusion 2",', '"Sound diffusion 1",')],
    """
from pyown.tags import Who
names = [w.name for w in Who]
assert len({str(w) for w in Who}) == len(list(Who)) == len(set(names)), names
""")

bug("working_time_wraps", "P18",
    "a lamp that has worked 100000 hours",
    "the largest working time is read as zero",
    [("pyown/items/lighting/base.py",
      "            yield message.where, int(message.values[0].tag)\n",
      "            yield message.where, int(message.values[0].tag[:5])\n")],
    """
import h
from pyown.items import Light
async def main():
    for v in (1, 99999, 100000):
        async with h.GW(lambda f: f"*#1*12*8*{v}##" + h.ACK) as g:
            c = await g.client()
            r = [(str(w), t) async for w, t in Light(c, "12").request_working_time_lamp()]
            assert r == [("12", v)], r
            await c.close()
h.run(main)
""")
