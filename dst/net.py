"""The simulated datagram network and the record of what happens on it."""

MASK = (1 << 64) - 1


def mix(*xs):
    """a deterministic hash of integers and strings -> float in [0, 1)"""
    h = 0x9E3779B97F4A7C15
    for x in xs:
        if isinstance(x, str):
            v = 0
            for c in x.encode():
                v = (v * 131 + c) & MASK
        else:
            v = int(x) & MASK
        h = (h ^ v) * 0xBF58476D1CE4E5B9 & MASK
        h ^= h >> 29
        h = h * 0x94D049BB133111EB & MASK
        h ^= h >> 32
    return h / 2.0 ** 64


class Datagram:
    __slots__ = ("link", "n", "src", "dst", "data", "meta", "copy", "t", "lost", "late", "delivered")

    def __init__(self, link, n, src, dst, data, meta, t):
        self.link, self.n, self.src, self.dst, self.data, self.meta, self.t = link, n, src, dst, data, meta, t
        self.copy = 0
        self.lost = False      # no copy was scheduled
        self.late = False      # first copy later than the base latency
        self.delivered = []    # times of delivery


class Net:
    """cfg: latency, jitter, jseed.  faults: [{"link","n","kind":drop|dup|delay,"arg"}]

    The n-th datagram ever sent on a link meets the directives which name it; every other
    datagram arrives once, after latency plus a jitter which is a function of (jseed, link, n)."""

    def __init__(self, cfg, faults, world):
        self.latency = cfg.get("latency", 0.005)
        self.jitter = cfg.get("jitter", 0.0)
        self.jseed = cfg.get("jseed", 0)
        self.world = world
        self.directives = {}
        for f in faults:
            if "link" in f:
                self.directives.setdefault((f["link"], f["n"]), []).append(f)
        self.endpoints = {}
        self.groups = {}
        self.count = {}
        self.fired = {}
        self.last_fault = 0.0
        self.loop = None
        self.delivered = 0
        self.reordered = 0
        self._top = {}

    def bind(self, transport):
        self.endpoints[transport.local_addr] = transport

    def unbind(self, transport):
        if self.endpoints.get(transport.local_addr) is transport:
            del self.endpoints[transport.local_addr]

    def link(self, src, dst):
        return "%s>%s" % (self.world.endpoint_name(src), self.world.endpoint_name(dst))

    def sent(self, transport, data, addr):
        self.world.on_client_sent(transport, data, addr)
        self.transmit(transport.local_addr, addr, data)

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.last_fault = max(self.last_fault, self.loop.now)

    def transmit(self, src, dst, data, meta=None):
        link = self.link(src, dst)
        n = self.count.get(link, 0)
        self.count[link] = n + 1
        d = Datagram(link, n, src, dst, data, meta, self.loop.now)
        delay = self.latency + self.jitter * mix(self.jseed, link, n)
        drop = False
        extra = []
        for f in self.directives.get((link, n), ()):
            if f["kind"] == "drop":
                drop = True
                self.fire("drop")
            elif f["kind"] == "delay":
                delay += f["arg"]
                d.late = True
                self.fire("delay")
            elif f["kind"] == "dup":
                extra.append(f["arg"])
                self.fire("dup")
        if drop:
            d.lost = True
        else:
            self.loop.call_later(delay, self.deliver, d)
            for e in extra:
                self.loop.call_later(delay + e, self.deliver, d)
                self.last_fault = max(self.last_fault, self.loop.now + delay + e)
            self.last_fault = max(self.last_fault, self.loop.now + (delay if d.late else 0))
        self.world.on_transmit(d)
        return d

    def deliver(self, d):
        d.delivered.append(self.loop.now)
        self.delivered += 1
        if self._top.get(d.link, -1) > d.n:
            self.reordered += 1
        self._top[d.link] = max(self._top.get(d.link, -1), d.n)
        targets = [d.dst] if d.dst not in self.groups else self.groups[d.dst]
        for addr in targets:
            ep = self.endpoints.get(addr)
            if ep is not None:
                self.world.on_deliver(d, ep)
                try:
                    ep.deliver(d.data, d.src)
                except Exception as e:  # what the loop would do with an exception of a callback
                    if not hasattr(ep, "protocol"):
                        raise           # of the simulation itself
                    self.loop._on_exception(self.loop, {"message": "datagram_received", "exception": e})
                self.world.after_deliver(d, ep)

    def inject(self, addr, data, src):
        """A datagram from nowhere, handed over at this very moment (no link, no ordinal)."""
        ep = self.endpoints.get(addr)
        if ep is not None:
            d = Datagram("noise", -1, src, addr, data, "noise", self.loop.now)
            self.world.on_deliver(d, ep)
            try:
                ep.deliver(data, src)
            except Exception as e:  # what the loop would do with an exception of a callback
                self.loop._on_exception(self.loop, {"message": "datagram_received", "exception": e})
            self.world.after_deliver(d, ep)
            return True
        return False
