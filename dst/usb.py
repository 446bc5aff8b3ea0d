"""World: one knx_stack USB HID client against a simulated daemon on the other side of a TCP stream."""
from . import gen, stack, wire
from .simloop import Hang, SimStreamTransport, get_new_loop
from .tunnel import PROPS, World


class Peer:
    """the daemon's side of the stream, and the network of the loop"""

    def __init__(self, world):
        self.w = world
        self.transport = None
        self.loop = None
        self.received = b""
        self.eof = False

    # the loop's network
    def tcp_connect_delay(self, host, port):
        return self.w.cfg.get("connect_delay", 0.0)

    def tcp_connect(self, loop, protocol, host, port):
        self.w.event("connect", host, port)
        self.transport = SimStreamTransport(loop, protocol, self)
        self.transport.rate = self.w.cfg.get("read_rate")
        self.w.connected_to = (host, port)
        return self.transport

    # from the client
    def client_wrote(self, data):
        self.w.wrote(data)

    def client_eof(self):
        self.eof = True

    def client_closed(self):
        self.w.event("client-closed")


class UsbWorld(World):
    def run(self):
        cfg = self.cfg
        self.peer = Peer(self)
        self.loop = get_new_loop(self.peer, max_steps=cfg.get("max_steps", 60000))
        self.fired = {}
        self.expected = []      # [(line number, messages, time)]
        self.matched = 0
        self.buffer = b""
        self.partial = b""
        self.fragment = False
        self.featured = False
        self.connected_to = None
        self.ended = None       # time of the end of the stream
        self.sent = []
        self.queue = list(cfg["msgs"])
        self.deliveries = []
        self.stopped_at = None
        self.broken = False     # reset: what is written is lost
        n = len(cfg["msgs"])
        self.limit = cfg.get("connect_delay", 0.0) + 5 + 10 * n
        ks = stack.ks()
        with stack.Tap() as self.tap:
            try:
                self.node = stack.Node(cfg["node"], "usb", "u")
                self.tap.add(self.node.state, self)
                msgs = [self.node.message(m) for m in cfg["msgs"]]
                self.optional = 0
                if cfg.get("spoilt"):
                    self.optional = max(0, n - cfg["spoilt"][0])
                    msgs = stack.spoil(self.node, msgs, cfg["spoilt"])
                    self.probe("a message which cannot be encoded")
                if cfg.get("iter"):
                    msgs = iter(msgs)
                over = []
                for op in sorted(self.case["ops"], key=lambda o: o["t"]):
                    self.loop.call_at(op["t"], self.do, op)

                def timeout():
                    over.append(True)
                    super(type(self.loop), self.loop).stop()
                self.loop.call_at(max(self.limit, max([o["t"] for o in self.case["ops"]] + [0]) + 1) + 1, timeout)
                client = ks.client.usbhid.Client("10.0.0.9", 5555, self.node.state, msgs)
                if self.connected_to is None:
                    self.violate({"C08", "C09"}, "not-connected", "the client does not connect to the daemon")
                self.check("C09", self.connected_to == ("10.0.0.9", 5555), "wrong-host", "connected to %s" % (self.connected_to,))
                stops = self.loop.stops
                try:
                    client.run()
                except Exception:
                    if not cfg.get("spoilt"):
                        raise
                    stops = -1        # an error ends the application
                self.stopped_at = self.loop.now if self.loop.stops > stops and not over else None
                self.event("run-returned", self.stopped_at is not None)
                self.finish()
            except Hang as e:
                ended = self.ended is not None
                self.violate({"C08"} if ended or not self.queue else {"C08", "C09"}, "busy-loop", "the client loops without waiting: %s" % e)
            finally:
                self.loop.dispose()
        return self

    def controlled(self):
        if self.cfg.get("refuse") and getattr(self, "refusals", 0):
            self.COVERED = "C23"
            return True
        return self.cfg.get("features") and self.featured

    COVERED = "C19"

    def check(self, prop, ok, cls, text):
        if not ok:
            self.violate({prop}, cls, text)
        return ok

    def fire(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1

    # --- the stream to the client
    def do(self, op):
        if op["op"] == "table":
            if self.node.apply(op):
                self.probe("table operation under traffic")
                self.event("table", op["do"])
            return
        if op["op"] == "refuse":
            self.refuse(op)
            return
        tr = self.peer.transport
        if tr is None or tr.closed or self.ended is not None:
            return
        k = op["op"]
        if k in ("lines", "fragment") and self.fragment:
            return              # the stream ends with this fragment
        if k == "lines":        # complete lines, cut into segments
            data = b"".join(self.line(x) for x in op["lines"])
            self.segments(data, op.get("cuts", []), op.get("gaps", []))
        elif k == "fragment":   # bytes without an end of line
            self.segments(bytes.fromhex(op["data"]), op.get("cuts", []), op.get("gaps", []))
            if op.get("overlong"):
                self.probe("overlong line")
            else:
                self.fragment = True
        elif k == "eof":
            self.fire("end of stream")
            self.later(None)
        elif k == "reset":
            self.fire("connection reset")
            self.later(ConnectionResetError(104, "Connection reset by peer"))

    def line(self, x):
        if "feature" in x:
            service, manufacturer, feature, data = x["feature"]
            r = bytearray(wire.usb_feature(service, feature, bytes.fromhex(data), manufacturer).ljust(56 if x.get("pad", True) else 0, b"\0"))
            for at, value in x.get("spoilt", ()):      # another report, version or protocol
                r[at] = value
            return r.hex().encode() + b"\n"
        if "cemi" in x:
            report = wire.usb_report(bytes.fromhex(x["cemi"]))
            if x.get("pad", True):
                report = report.ljust(56, b"\0")
            text = report.hex()
            if x.get("upper"):
                text = text.upper()
            return text.encode() + b"\n"
        return bytes.fromhex(x["bad"]) + b"\n"

    def segments(self, data, cuts, gaps):
        pos = [0] + sorted(set(c % (len(data) + 1) for c in cuts)) + [len(data)]
        t = getattr(self, "busy", 0.0)
        t = max(t, self.loop.now)
        for i, (a, b) in enumerate(zip(pos, pos[1:])):
            if b > a:
                if i and gaps:
                    t += gaps[i % len(gaps)]
                self.loop.call_at(t, self.feed, data[a:b])
        if len(pos) > 2:
            self.fire("stream cut inside a line")
        self.busy = t

    def later(self, item):
        self.busy = max(getattr(self, "busy", 0.0), self.loop.now)
        self.loop.call_at(self.busy, self.feed, item)

    def feed(self, item):
        if self.ended is not None or self.peer.transport.closed:
            return
        if not isinstance(item, bytes):
            self.ended = self.loop.now
            self.broken = item is not None
            if self.partial:
                self.probe("end of stream inside a line")
            self.event("end", item is None)
            self.peer.transport.feed(item)
            return
        self.event("feed", item.hex())
        parts = (self.partial + item).split(b"\n")
        self.partial = parts.pop()
        for p in parts:
            self.expect(p)
        if len(parts) > 1:
            self.probe("several lines in one segment")
        self.peer.transport.feed(item)

    def expect(self, text):
        try:
            s = text.decode("ascii")
            if len(s) % 2 or not all(c in "0123456789abcdefABCDEF" for c in s):
                raise ValueError
            c = wire.parse_usb(bytes.fromhex(s))
            f = wire.parse_feature(bytes.fromhex(s))
        except ValueError:
            c = f = None
        if f is not None:
            self.featured = True
            if f:
                self.expected.append((f, self.loop.now))
                self.probe("%s %s" % f[0][1:])
            else:
                self.probe("feature report without a message")
            return
        if c is None:
            self.probe("malformed line")
            return
        want = wire.expected_messages(self.node.model, c)
        if want:
            self.expected.append((want, self.loop.now))

    # --- what the client delivers
    def on_decode_error(self, e):
        self.event("decode-error", type(e).__name__)

    def on_decoded(self, result):
        try:
            msgs = [m for m in (stack.plain(x, self.node.model) or stack.plain_feature(x) for x in stack.messages(result)) if m is not None]
        except Exception as e:
            self.violate({"C08"}, "undecodable-message", "a delivered message cannot be read: %r" % (e,))
            return
        if not msgs:
            return
        self.keep(result, {"C08"})
        self.event("app", repr(sorted(msgs, key=repr)))
        self.deliveries.append(msgs)
        prop = any(m[0] in PROPS for m in msgs)
        if self.matched >= len(self.expected):
            self.violate(({"C19"} if msgs[0][0] == "feature" else {"C08"}) | ({"C16"} if prop else set()), "unexpected-delivery", "delivered %s, no line asks for it" % (msgs,))
            return
        want, _ = self.expected[self.matched]
        self.matched += 1
        if not stack.same(want, msgs):
            prop = prop or any(m[0] in PROPS for m in want)
            self.violate({"C08"} | ({"C19"} if "feature" in (want[0][0], msgs[0][0]) else set()) | ({"C16"} if prop else set()), "wrong-delivery", "delivered %s instead of %s" % (msgs, want))

    # --- what the client sends
    def wrote(self, data):
        self.event("wrote", data.decode("latin1"))
        self.buffer += data
        while b"\n" in self.buffer:
            line, self.buffer = self.buffer.split(b"\n", 1)
            self.got_line(line)

    def got_line(self, line):
        if not self.queue:
            self.violate({"C09"}, "extra-line", "a line %r which no message asked for" % line)
            return
        m = self.queue.pop(0)
        tags = {"C09"} | ({"C16"} if m["m"] in PROPS else set())
        try:
            s = line.decode("ascii")
            c = wire.parse_usb(bytes.fromhex(s)) if len(s) % 2 == 0 and s == s.strip() else None
        except ValueError:
            c = None
        if c is None:
            self.violate(tags, "malformed-line", "message %s written as %r, which is no KNX report" % (m, line))
            return
        got, want = stack.request_content(c), stack.expected_request(self.node.model, m)
        self.sent.append(m)
        if got != want:
            self.violate(tags, "request-content", "message %s sent as %s instead of %s" % (m, got or c.hex(), want))

    def finish(self):
        now = self.loop.now
        if self.stopped_at is None:
            self.violate({"C09"}, "not-stopped", "the client did not stop its loop within %.0f s" % self.limit)
            if len(self.queue) > self.optional and not self.broken:
                self.violate({"C09"} | ({"C08"} if self.ended is not None else set()), "not-sent", "messages not sent: %s" % (self.queue[:3],))
        else:
            if self.stopped_at > self.limit:
                self.violate({"C09"}, "slow", "the client stopped after %.1f s" % self.stopped_at)
            if (len(self.queue) > self.optional or self.buffer) and not self.broken:
                self.violate({"C09"} | ({"C08"} if self.ended is not None else set()), "not-sent",
                             "messages not sent: %s, unfinished line %r" % (self.queue[:3], self.buffer))
            self.probe("stopped by the writer")
        for want, t in self.expected[self.matched:]:
            if self.broken and t >= self.ended - 1e-6:
                continue        # in the buffers when the connection broke
            if t < now - 1e-6:
                tags = {"C08"} | ({"C16"} if any(m[0] in PROPS for m in want) else set()) | ({"C19"} if want[0][0] == "feature" else set())
                self.violate(tags, "missing-delivery", "%s was not delivered" % (want,))
                break

    def stats(self):
        return {"fired": self.fired, "probes": self.probes, "sim_s": self.loop.now, "lines_sent": len(self.sent),
                "deliveries": len(self.deliveries)}


# ------------------------------------------------------------------ cases
def bad_line(rng, cfg):
    r = rng.randrange(10)
    good = wire.usb_report(gen.gen_cemi(rng, cfg["node"], other=0)).ljust(56, b"\0")
    info = good[12]
    # first byte of the TPDU: 3 report header, 8 transfer header, 2 + info + 7 cEMI
    tpdu = 3 + 8 + 2 + info + 7
    if r == 0:
        return b""
    if r == 1:
        return good.hex().encode()[:rng.randint(1, 8)]
    if r == 2:
        return bytes(rng.choice([x for x in range(256) if x != 10]) for _ in range(rng.randint(1, 60)))
    if r == 3:      # one character spoilt inside the frame
        t = bytearray(good.hex().encode())
        t[rng.randrange(2 * tpdu)] = rng.choice(b"gGxz .,-_\x00\xff\r\t")
        return bytes(t)
    if r == 4 and rng.random() < 0.4:      # a length which ends before the application data
        at, most = rng.choice([(2, tpdu - 3), (6, tpdu - 11)])
        return (good[:at] + bytes([rng.randint(0, most)]) + good[at + 1:]).hex().encode()
    if r == 4:      # cut before the application data
        return good[:rng.randint(1, tpdu)].hex().encode()
    if r == 5:      # another report
        return (bytes([rng.choice([0, 2, 3, 0x11, 0xFF])]) + good[1:]).hex().encode()
    if r == 6:      # a part of a longer transfer
        return (good[:1] + bytes([rng.choice([0x14, 0x25, 0x26, 0x34])]) + good[2:]).hex().encode()
    if r == 9:      # another version, protocol or EMI
        at, values = rng.choice([(3, [1, 2, 16, 128, 255]), (4, [0, 7, 9, 12, 255]), (7, [0, 2, 3, 14, 16, 255]), (8, [0, 1, 2, 4, 131, 255]),
                                 (9, [1, 128, 255]), (10, [1, 2, 128, 255])])
        return (good[:at] + bytes([rng.choice(values)]) + good[at + 1:]).hex().encode()
    if r == 7:
        return b"0x" + good.hex().encode()
    return rng.choice([b"hello", b"\r", b"   ", b"read: 0113", b"\x00" * 20, "à€ü".encode(), b"-1", b"None"])


def gen_feature(rng):
    service, feature, data, manufacturer = rng.choice([2, 4]), rng.choice([3, 5]), [rng.choice([0, 1, 1, 2, 3, 3])], 0
    r = rng.random()
    if r < 0.1:
        service = rng.choice([1, 3, 0, 5, 255])
    elif r < 0.2:       # the ones with two octets of data among them
        feature = rng.choice([1, 2, 4, 0, 6, 255])
        data = [rng.choice([0, 1, 3, 255]) for _ in range(rng.choice([1, 2, 2]))]
    elif r < 0.25:
        manufacturer = rng.choice([1, 256, 65535])
    elif r < 0.3:
        data = [rng.choice([4, 5, 128, 254, 255])]
    elif r < 0.32:
        data = []
    x = {"feature": [service, manufacturer, feature, bytes(data).hex()], "pad": rng.random() < 0.8}
    if rng.random() < 0.08:
        at, values = rng.choice([(0, [0, 2, 3, 0x11, 0xFF]), (1, [0x14, 0x25, 0x26, 0x34]), (3, [1, 2, 16, 128, 255]), (4, [0, 7, 9, 12, 255]),
                                 (7, [0, 2, 3, 14, 16, 255]), (7, [0, 2, 3, 14, 16, 255])])
        x["spoilt"] = [[at, rng.choice(values)]]
    return x


def gen_lines(rng, cfg, n, bad, prop=0.15, features=0.0):
    out = []
    for _ in range(n):
        if rng.random() < features:
            last = [x for x in out if "feature" in x][-1:]
            out.append(gen.again(rng, last, lambda: gen_feature(rng), 0.2))
        elif rng.random() < bad:
            b = bad_line(rng, cfg)
            if b.endswith(b"\n") or b"\n" in b:
                b = b.replace(b"\n", b"")
            out.append({"bad": b.hex()})
        else:
            good = [x for x in out if "cemi" in x]
            if rng.random() < 0.5:
                good = good[-1:]
            out.append(gen.again(rng, good, lambda: {"cemi": gen.gen_cemi(rng, cfg["node"], prop).hex(), "pad": rng.random() < 0.8,
                                                     "upper": rng.random() < 0.1}, 0.2))
    return out


def gen_usb(rng, prop, tier, i):
    features = 0.5 if prop == "C19" else rng.choice([0.0, 0.1]) if prop == "C08" else 0.0
    n_msgs = rng.choice([0, 1, 2, 3, 4, 6, 10]) if prop == "C09" else rng.choice([1, 2, 3, 4])
    if prop == "C09" and i % 100 == 31:
        n_msgs = rng.choice([255, 256, 257, 300])
    quiet = prop in ("C08", "C19") and i % 50 == 13      # minutes to more than an hour without a line
    if quiet:
        n_msgs = rng.choice([15, 25, 45, 130, 130, 1300])
    prop_share = 0.6 if prop == "C16" else 0.2
    cfg = dict(node=gen.gen_tables(rng), connect_delay=rng.choice([0.0, 0.0, 0.5]), iter=rng.random() < 0.2)
    if prop == "C19":
        cfg["features"] = True
    if prop == "C16":
        n_msgs = rng.randint(1, 6)
    cfg["msgs"] = []
    for _ in range(n_msgs):
        cfg["msgs"].append(gen.again(rng, cfg["msgs"], lambda: gen.gen_msg(rng, cfg["node"], prop_share), 0.2))
    if prop == "C09" and rng.random() < 0.1:
        cfg["spoilt"] = [rng.randint(0, n_msgs), rng.choice(["write", "read", "object", "raise"])]
    span = 3.0 * n_msgs + cfg["connect_delay"] - 0.01
    ops = []
    bad = rng.choice([0.0, 0.1, 0.3, 0.6]) if prop != "C16" else 0.05
    many = prop in ("C08", "C19") and i % 100 == 27      # hundreds of lines, more than the buffer of the stream holds
    for _ in range(rng.randint(1 if prop != "C09" else 0, 6 if not quiet else 2)):
        lines = gen_lines(rng, cfg, rng.choice([1, 1, 2, 3, 8]) if not many else rng.choice([30, 130, 300, 600]), bad, prop_share if prop == "C16" else 0.15, features)
        size = 120 * len(lines)
        mode = rng.randrange(4)
        cuts = [] if mode == 0 else [rng.randrange(size) for _ in range(rng.choice([1, 2, 5, 20]))]
        if mode == 3 and not many:
            cuts = list(range(size))   # byte by byte
        gaps = rng.choice([[0.0], [0.0], [0.001], [0.01, 0.0, 0.3]]) if mode != 3 or many else rng.choice([[0.0], [0.001]])
        ops.append({"t": round(rng.uniform(cfg["connect_delay"], max(span, 0.1)), 4), "op": "lines", "lines": lines, "cuts": cuts, "gaps": gaps})
    if prop == "C08" and i % 40 == 7:
        big = bytes([rng.choice(b"0aA\xff ")]) * rng.choice([65535, 65536, 65537, 70000, 131072, 140000])
        ops.append({"t": round(rng.uniform(0.6, max(span, 0.7)), 4), "op": "fragment", "data": big.hex(), "overlong": True,
                    "cuts": [rng.randrange(len(big)) for _ in range(rng.choice([0, 1, 4]))], "gaps": [rng.choice([0.0, 0.01])]})
        tail = gen_lines(rng, cfg, 1, 0.0)[0]
        ops.append({"t": ops[-1]["t"] + 0.1, "op": "lines", "lines": [tail] + gen_lines(rng, cfg, 3, 0.2), "cuts": [], "gaps": [0.0]})
    r = rng.random()
    if r < 0.35:
        t = round(rng.uniform(cfg["connect_delay"] + 0.1, span + 1), 4)
        if rng.random() < 0.6:
            frag = wire.usb_report(gen.gen_cemi(rng, cfg["node"], other=0)).ljust(56, b"\0").hex().encode()
            if rng.random() < 0.6:
                frag = frag[:rng.randint(1, len(frag))]
            ops.append({"t": t, "op": "fragment", "data": frag.hex()})
        ops.append({"t": t + rng.choice([0.0, 0.5]), "op": rng.choice(["eof", "eof", "reset"])})
    return dict(world="usb", cfg=cfg, ops=ops, faults=[])
