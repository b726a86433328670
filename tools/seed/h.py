"""A scripted gateway on the loopback network, for the demonstrations."""
import asyncio
import logging

from pyown.client import Client, SessionType

logging.disable(logging.CRITICAL)
ACK = "*#*1##"
NACK = "*#*0##"


class GW:
    """answer(frame) gives the text to send back for each frame received (None: nothing)."""

    def __init__(self, answer=None, greet=ACK):
        self.answer = answer or (lambda f: ACK)
        self.greet = greet
        self.got = []
        self.w = None

    async def __aenter__(self):
        self.server = await asyncio.start_server(self._serve, "127.0.0.1", 0)
        self.port = self.server.sockets[0].getsockname()[1]
        return self

    async def __aexit__(self, *a):
        if self.w is not None:
            self.w.close()
        self.server.close()

    async def _serve(self, r, w):
        self.w = w
        w.write(self.greet.encode())
        while True:
            try:
                f = (await r.readuntil(b"##")).decode()
            except Exception:
                return
            if f.startswith("*99*"):
                a = self.session(f)
            else:
                self.got.append(f)
                a = self.answer(f)
            if a is not None:
                w.write(a.encode())

    def session(self, f):
        return ACK

    async def push(self, text, wait=0.05):
        self.w.write(text if isinstance(text, bytes) else text.encode())
        await asyncio.sleep(wait)

    async def client(self, kind=SessionType.CommandSession, password="12345"):
        c = Client("127.0.0.1", self.port, password, kind)
        await c.start()
        return c


def run(main, limit=60):
    async def go():
        async with asyncio.timeout(limit):
            await main()
    asyncio.run(go())
    print("ok")
