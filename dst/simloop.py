"""An asyncio event loop whose clock, timers, sockets and streams belong to the simulation.

Nothing here reads a real clock, opens a real descriptor or draws a random number:
given the same callbacks, the same schedule is executed.
"""
import asyncio
import collections
import heapq
from asyncio import base_events, events, transports

from . import clock


class Hang(KeyboardInterrupt):
    """The code under test does not give control back (raised by the watchdog)."""


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        loop = self.loop
        loop.steps += 1
        if loop.now > loop.era + 5000.0:      # a long silence may be polled through
            loop.era, loop.steps = loop.now, 0
        if loop.steps > loop.max_steps:
            raise Hang("more than %d loop iterations" % loop.max_steps)
        if timeout is None:
            # nothing ready and no timer: nothing can ever happen again
            loop.quiescent = True
            loop._stopping = True
        elif timeout > 0 and loop._scheduled:
            when = loop._scheduled[0]._when
            if when > loop.now:
                loop.now = when
        return []

    def close(self):
        pass

    def get_map(self):
        return {}


class _Timer(events.TimerHandle):
    """ties are broken by the order of scheduling"""
    __slots__ = ("seq",)

    def __lt__(self, other):
        if isinstance(other, _Timer):
            return (self._when, self.seq) < (other._when, other.seq)
        return NotImplemented

    def __le__(self, other):
        return self is other or self < other

    def __gt__(self, other):
        return other < self

    def __ge__(self, other):
        return self is other or other < self

    __hash__ = events.TimerHandle.__hash__

    def __eq__(self, other):
        return self is other


class SimLoop(base_events.BaseEventLoop):
    def __init__(self, net=None, max_steps=400000):
        super().__init__()
        self.now = 0.0
        self.steps = 0
        self.era = 0.0
        self.timers = 0
        self.max_steps = max_steps
        self.quiescent = False
        self.net = net
        self.stops = 0
        self.exceptions = []  # (time, context message, exception)
        self._clock_resolution = 1e-9
        self._selector = _Selector(self)
        self.set_exception_handler(self._on_exception)

    # --- BaseEventLoop seams
    def time(self):
        return self.now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def _on_exception(self, loop, context):
        exc = context.get("exception")
        self.exceptions.append((self.now, context.get("message"), exc))

    def stop(self):
        self.stops += 1
        super().stop()

    def call_at(self, when, callback, *args, context=None):
        if when is None:
            raise TypeError("when cannot be None")
        self._check_closed()
        timer = _Timer(when, callback, args, self, context)
        self.timers += 1
        timer.seq = self.timers
        heapq.heappush(self._scheduled, timer)
        timer._scheduled = True
        return timer

    # --- endpoints
    async def create_datagram_endpoint(self, protocol_factory, local_addr=None, remote_addr=None, **kw):
        protocol = protocol_factory()
        sock = kw.get("sock")
        transport = SimDatagramTransport(self, self.net, protocol, local_addr, remote_addr, sock)
        self.net.bind(transport)
        waiter = self.create_future()
        self.call_soon(protocol.connection_made, transport)
        self.call_soon(_wake, waiter)
        await waiter
        return transport, protocol

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        delay = self.net.tcp_connect_delay(host, port)
        if delay:
            await asyncio.sleep(delay)
        protocol = protocol_factory()
        transport = self.net.tcp_connect(self, protocol, host, port)
        waiter = self.create_future()
        self.call_soon(protocol.connection_made, transport)
        self.call_soon(_wake, waiter)
        await waiter
        return transport, protocol

    def run_until_complete(self, future):
        """As of asyncio, but somebody else's loop.stop() does not end it."""
        task = asyncio.ensure_future(future, loop=self)
        done = []

        def finished(_):
            done.append(True)
            base_events.BaseEventLoop.stop(self)
        task.add_done_callback(finished)
        try:
            while not done:
                self.quiescent = False
                self.run_forever()
                if self.quiescent and not done:
                    raise RuntimeError("Event loop stopped before Future completed.")
        finally:
            task.remove_done_callback(finished)
        return task.result()

    # --- driving
    def run_to_end(self, until):
        """Run until simulated time `until` or until nothing can happen any more.

        The code under test may call loop.stop(): that ends its own run_forever,
        the world (network, gateway) goes on."""
        ended = []

        def stop():
            ended.append(True)
            base_events.BaseEventLoop.stop(self)
        end = self.call_at(until, stop)
        try:
            while True:
                self.quiescent = False
                self.run_forever()
                if self.quiescent or ended:
                    break
        finally:
            end.cancel()

    def dispose(self):
        for task in asyncio.all_tasks(self):
            task.cancel()
            task._log_destroy_pending = False
        self.set_exception_handler(lambda *a: None)
        try:
            self.call_soon(super().stop)
            self.run_forever()
        except Hang:
            raise
        except BaseException:
            pass
        self.close()


def _wake(fut):
    if not fut.cancelled():
        fut.set_result(None)


class SimDatagramTransport(transports.DatagramTransport):
    def __init__(self, loop, net, protocol, local_addr, remote_addr, sock):
        super().__init__({"sockname": local_addr, "peername": remote_addr, "socket": sock})
        self.loop, self.net, self.protocol = loop, net, protocol
        self.local_addr, self.remote_addr, self.sock = local_addr, remote_addr, sock
        self.closed = False

    def sendto(self, data, addr=None):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("data argument must be a bytes-like object")
        if not data and addr is None:
            return
        if self.remote_addr is not None:
            if addr not in (None, self.remote_addr):
                raise ValueError("Invalid address: must be None or %s" % (self.remote_addr,))
            addr = self.remote_addr
        if self.closed:
            return
        self.net.sent(self, bytes(data), addr)

    def get_protocol(self):
        return self.protocol

    def set_protocol(self, protocol):
        self.protocol = protocol

    def is_closing(self):
        return self.closed

    def close(self):
        if not self.closed:
            self.closed = True
            self.net.unbind(self)
            self.loop.call_soon(self.protocol.connection_lost, None)

    abort = close

    def deliver(self, data, addr):
        if not self.closed:
            self.protocol.datagram_received(data, addr)

    def error(self, exc):
        if not self.closed:
            self.protocol.error_received(exc)

    def __repr__(self):
        return "<SimDatagramTransport>"


class SimStreamTransport(transports.Transport):
    """One side (the one of the code under test) of a simulated TCP connection."""

    def __init__(self, loop, protocol, peer):
        super().__init__({"peername": ("sim", 0), "sockname": ("sim", 1)})
        self.loop, self.protocol, self.peer = loop, protocol, peer
        self.closed = False
        self.paused = False
        self.backlog = collections.deque()
        self.read_eof = False

    # writing (client -> daemon)
    def write(self, data):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("data argument must be a bytes-like object")
        if self.closed:
            return
        self.peer.client_wrote(bytes(data))

    def writelines(self, lines):
        self.write(b"".join(lines))

    def can_write_eof(self):
        return True

    def write_eof(self):
        self.peer.client_eof()

    def get_write_buffer_size(self):
        return 0

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def is_closing(self):
        return self.closed

    def get_protocol(self):
        return self.protocol

    def set_protocol(self, protocol):
        self.protocol = protocol

    def close(self):
        if not self.closed:
            self.closed = True
            self.peer.client_closed()
            self.loop.call_soon(self.protocol.connection_lost, None)

    abort = close

    # reading (daemon -> client)
    def is_reading(self):
        return not self.paused

    def pause_reading(self):
        self.paused = True

    def resume_reading(self):
        self.paused = False
        self.loop.call_soon(self._flush)

    def _flush(self):
        while self.backlog and not self.paused and not self.closed:
            self._feed(self.backlog.popleft())

    def _feed(self, item):
        if isinstance(item, bytes):
            self.protocol.data_received(item)
        elif item is None:
            self.read_eof = True
            keep = self.protocol.eof_received()
            if not keep:
                self.close()
        else:
            self.closed = True
            self.protocol.connection_lost(item)

    def feed(self, item):
        """bytes: a segment; None: end of stream; an exception: the connection breaks"""
        if self.closed or self.read_eof:
            return
        self.backlog.append(item)
        self._flush()


def get_new_loop(net, max_steps=400000):
    loop = SimLoop(net, max_steps)
    if net is not None:
        net.loop = loop
    events.set_event_loop(loop)
    clock.loop = loop
    return loop
