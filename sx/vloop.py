"""Virtual-time event loop and in-memory transport (no engine code here: the
same loop drives symbolic runs and concrete replays)."""
import asyncio
import signal
import threading
import time


class _Selector:
    def __init__(self, loop):
        self.loop = loop
        self.busy = 0

    def select(self, timeout):
        # a task that polls without sleeping: time passes all the same
        self.busy = self.busy + 1 if timeout == 0 else 0
        if self.busy % 200 == 199:
            self.loop._vt += 0.01
        if timeout is None:
            self.loop.quiescent = True
            self.loop.stop()
        elif timeout > 0:
            self.loop._vt += timeout
            if self.loop._vt > self.loop.horizon:
                self.loop.quiescent = True
                self.loop.stop()
        return []

    def close(self):
        pass


class VLoop(asyncio.BaseEventLoop):
    def __init__(self, horizon=100000.0):
        super().__init__()
        self._vt = 0.0
        self.horizon = horizon
        self._selector = _Selector(self)
        self._clock_resolution = 1e-6
        self.quiescent = False
        self.transports = []
        self.on_connect = None
        self.connect_error = None

    def time(self):
        return self._vt

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        pass

    async def create_connection(self, factory, host=None, port=None, **kw):
        if self.connect_error is not None:
            raise self.connect_error
        await asyncio.sleep(0)
        proto = factory()
        tr = FakeTransport(self, proto)
        self.transports.append(tr)
        proto.connection_made(tr)
        if self.on_connect is not None:
            self.on_connect(tr)
        return tr, proto

    # -- driving
    def drive(self, coro=None, until=None):
        """Run until the coroutine ends or nothing can happen any more.

        Returns the task (check .done()), or None without a coroutine."""
        task = None
        self.quiescent = False
        if coro is not None:
            task = self.create_task(coro) if asyncio.iscoroutine(coro) else coro
            if task.done():
                return task
            task.add_done_callback(lambda _: self.stop())
        if until is not None:
            self.call_at(until, self.stop)
        self.run_forever()
        return task

    def settle(self):
        """Run everything that is runnable now or later, to quiescence."""
        self.quiescent = False
        while not self.quiescent:
            self.run_forever()

    def dispose(self):
        try:
            for t in asyncio.all_tasks(self):
                t._log_destroy_pending = False
                t.cancel()
            self._ready.clear()
            self._scheduled.clear()
            if not self.is_closed():
                self.close()
        except Exception:
            pass

    def close(self):
        self._ready.clear()
        self._scheduled.clear()
        asyncio.BaseEventLoop.close(self)


class Guard:
    """a call that must not block: after some real seconds it is interrupted with an error"""

    def __init__(self, what, seconds=15.0):
        self.what, self.seconds = what, seconds

    def _fired(self, *_):
        raise RuntimeError(self.what)

    def __enter__(self):
        self.main = threading.current_thread() is threading.main_thread()
        if self.main:
            self.handler = signal.signal(signal.SIGALRM, self._fired)
            self.since = time.monotonic()
            self.before = signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *_):
        if self.main:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.handler)
            if self.before[0]:
                left = self.before[0] - (time.monotonic() - self.since)
                signal.setitimer(signal.ITIMER_REAL, max(left, 0.01), self.before[1])


class FakeTransport(asyncio.Transport):
    def __init__(self, loop, protocol):
        super().__init__()
        self.loop = loop
        self.protocol = protocol
        self.sent = []          # data blocks, in order
        self.marks = []         # (time, paused, closing) at each write
        self.paused = False
        self._closing = False
        self._lost = False
        self.on_write = None
        self.on_full = None     # told the number of writes so far: may pause the protocol from inside write()
        self.fatal = None
        self.writes_after_close = 0

    # asyncio.Transport API
    def write(self, data):
        if self._closing:
            self.writes_after_close += 1
            return
        self.sent.append(data)
        self.marks.append((self.loop.time(), self.paused, self._closing))
        if self.on_write is not None:
            self.on_write(data)
        if self.on_full is not None:
            self.on_full(len(self.sent))

    def writelines(self, lines):
        for d in lines:
            self.write(d)

    def is_closing(self):
        return self._closing

    def close(self):
        if not self._closing:
            self._closing = True
            self.loop.call_soon(self._call_lost, None)

    def abort(self):
        self.close()

    def get_extra_info(self, name, default=None):
        return default

    def is_reading(self):
        return not self._closing

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def set_protocol(self, protocol):
        self.protocol = protocol

    def get_protocol(self):
        return self.protocol

    def get_write_buffer_size(self):
        return 0

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def can_write_eof(self):
        return False

    # gateway side
    def _call_lost(self, exc):
        if not self._lost:
            self._lost = True
            self.protocol.connection_lost(exc)

    def feed(self, data):
        """Deliver data now, with asyncio's handling of protocol errors."""
        if self._closing:
            return
        try:
            self.protocol.data_received(data)
        except (SystemExit, KeyboardInterrupt):
            raise
        except BaseException as exc:
            self.fatal = exc
            self._closing = True
            self.loop.call_soon(self._call_lost, exc)

    def feed_later(self, data, delay=0.0):
        if delay:
            self.loop.call_later(delay, self.feed, data)
        else:
            self.loop.call_soon(self.feed, data)

    def lose(self, exc=None):
        if not self._closing:
            self._closing = True
            self.loop.call_soon(self._call_lost, exc)

    def pause(self):
        self.paused = True
        with Guard("pause_writing() blocks the event loop"):
            self.protocol.pause_writing()

    def resume(self):
        self.paused = False
        self.protocol.resume_writing()
