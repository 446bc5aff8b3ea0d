"""World: KNXnet/IP discovery (functions or script) among simulated gateways on a multicast network."""
import asyncio
import contextlib
import errno
import io
import logging
import runpy
import socket
import struct
import sys
import warnings

from . import gen, stack, wire
from .net import Net
from .simloop import Hang, get_new_loop
from .tunnel import World

MCAST = ("224.0.23.12", 3671)
SIG = "search-response-individual-address-is-medium-and-status"


class FakeSocket:
    """what the discovery asks of a UDP socket"""
    world = None

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        w = FakeSocket.world
        w.sockets.append(self)
        if family not in (-1, socket.AF_INET) or type & 0xF not in (socket.SOCK_DGRAM,):
            w.violate({"C07"}, "socket", "the discovery opens a socket %s %s" % (family, type))
        self.bound = None
        self.member = False
        self.flags = set()
        self.closed = False
        self.blocking = True

    def bind(self, addr):
        for port, holder in FakeSocket.world.bound:
            if port == addr[1] and not holder.flags & self.flags:
                raise OSError(errno.EADDRINUSE, "Address already in use")
        self.bound = (addr[0] or "0.0.0.0", addr[1])
        FakeSocket.world.bound.append((addr[1], self))

    def setsockopt(self, level, opt, value, *a):
        if level == socket.IPPROTO_IP and opt == socket.IP_ADD_MEMBERSHIP:
            group, _ = struct.unpack("!4s4s", value[:8])
            if socket.inet_ntoa(group) == MCAST[0]:
                self.member = True
        if level == socket.SOL_SOCKET and opt in (socket.SO_REUSEADDR, socket.SO_REUSEPORT):
            (self.flags.add if value else self.flags.discard)(opt)

    def getsockopt(self, *a):
        return 0

    def setblocking(self, flag):
        self.blocking = bool(flag)

    def settimeout(self, t):
        self.blocking = t != 0

    def getsockname(self):
        return self.bound

    def fileno(self):
        return 1000

    def close(self):
        if not self.closed:
            self.closed = True
            if self.bound:
                FakeSocket.world.bound.remove((self.bound[1], self))

    family, type, proto = socket.AF_INET, socket.SOCK_DGRAM, 0


class Program:
    """another program of the host, which shares the port of the discovery"""

    def __init__(self, flags):
        self.flags = {socket.SO_REUSEADDR} if flags == "addr" else {socket.SO_REUSEADDR, socket.SO_REUSEPORT}


class Records(logging.Handler):
    def __init__(self, world):
        super().__init__(logging.INFO)
        self.world = world

    def emit(self, record):
        if self.world.cur_listen is not None:
            self.world.cur_listen.append(record.getMessage())


class McastNet(Net):
    """the group reaches its gateways and every member socket, the sender's own one too"""

    def bind(self, transport):
        if transport.sock is not None:
            if transport.sock.bound is None:       # the system gives it a port when it sends
                transport.sock.bind(("", next(p for p in range(49152, 65536) if all(p != q for q, _ in self.world.bound))))
            transport.local_addr = (self.world.cfg["ip"], transport.sock.bound[1])
            self.world.requests.append(transport)
            if transport.sock.member:
                self.groups.setdefault(MCAST, []).append(transport.local_addr)
        else:
            a = transport.local_addr
            transport.flags = set()
            if any(port == a[1] for port, _ in self.world.bound):
                raise OSError(errno.EADDRINUSE, "Address already in use")
            transport.local_addr = (a[0] if a[0] != "0.0.0.0" else self.world.cfg["ip"], a[1])
            self.world.listens.append(transport)
            self.world.bound.append((a[1], transport))
        super().bind(transport)

    def unbind(self, transport):
        super().unbind(transport)
        if transport.local_addr in self.groups.get(MCAST, ()):
            self.groups[MCAST].remove(transport.local_addr)
        if transport.sock is not None:
            transport.sock.close()
        else:
            self.world.bound.remove((transport.local_addr[1], transport))

    def link(self, src, dst):
        return "%s>%s" % (self.world.endpoint_name(src), self.world.endpoint_name(dst))


class DGateway:
    def __init__(self, world, cfg, n):
        self.w, self.cfg, self.n = world, cfg, n
        self.addr = (cfg["ip"], cfg["port"])
        world.net.endpoints[self.addr] = self
        world.net.groups.setdefault(MCAST, []).append(self.addr)
        world.names[self.addr] = "g%d" % n

    def response(self):
        c = self.cfg
        data = wire.search_res(c["ip"], c["port"], c["medium"], c["status"], c["ia"], c["name"])
        if c.get("extra"):
            data = wire.frame(wire.SEARCH_RES, data[6:] + bytes.fromhex(c["extra"]))
        return data

    def deliver(self, data, src):
        p = wire.parse(data)
        if p is None or p[0] != wire.SEARCH_REQ or len(p[1]) != 8 or p[1][:2] != b"\x08\x01":
            return
        b = p[1]
        to = (".".join(str(x) for x in b[2:6]), (b[6] << 8) | b[7])
        for k in range(self.cfg.get("replies", 1)):
            self.w.loop.call_later(self.cfg["delay"] + 0.01 * k, self.answer, to)

    def answer(self, to):
        self.w.net.transmit(self.addr, to, self.response(), ("search", self.n))


class DiscoveryWorld(World):
    def run(self):
        cfg = self.cfg
        self.net = McastNet(cfg["net"], self.case.get("faults", []), self)
        self.loop = get_new_loop(self.net)
        self.names[MCAST] = "all"
        self.names[(cfg["ip"], 3671)] = "r"
        self.names[(cfg["ip"], cfg["port"])] = "l"
        self.sockets, self.bound, self.requests, self.listens = [], [], [], []
        self.asked = self.expected_asks = self.reported = 0
        self.cur_listen = None
        self.cur_results = []
        FakeSocket.world = self
        if cfg.get("shared"):
            self.bound.append((MCAST[1], Program(cfg["shared"])))
            self.probe("another program has the port of the discovery")
        self.gateways = [DGateway(self, g, i) for i, g in enumerate(cfg["gateways"])]
        last = max([o["t"] for o in self.case["ops"]] + [0])
        self.end = last + 20
        original = socket.socket
        handler = Records(self)
        root = logging.getLogger()
        with stack.Tap() as tap:
            tap.default = self
            socket.socket = FakeSocket
            root.addHandler(handler)
            try:
                for op in sorted(self.case["ops"], key=lambda o: o["t"]):
                    self.loop.call_at(op["t"], self.do, op)
                if cfg["mode"] == "script":
                    self.script()
                else:
                    self.functions()
                self.finish()
            finally:
                root.removeHandler(handler)
                socket.socket = original
                FakeSocket.world = None
                self.loop.dispose()
        return self

    # --- the code under test
    def script(self):
        cfg = self.cfg
        root = logging.getLogger()
        handlers, level = list(root.handlers), root.level
        argv, out = sys.argv, io.StringIO()

        def interrupt():
            raise KeyboardInterrupt
        self.loop.call_at(self.end, interrupt)
        self.expected_asks = 1
        try:
            sys.argv = ["knxnet_ip_discovery.py", cfg["ip"]]
            with contextlib.redirect_stdout(out), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                runpy.run_module("knx_stack.client.knxnet_ip_discovery", run_name="__main__", alter_sys=False)
        except Hang:
            raise
        except KeyboardInterrupt:
            self.violate({"C07"}, "interrupt", "the script does not end on an interrupt")
        except SystemExit:
            pass
        finally:
            sys.argv = argv
            root.handlers[:] = handlers
            root.setLevel(level)
        if self.loop.now < self.end:
            self.violate({"C07"}, "ended", "the discovery ended by itself after %.1f s" % self.loop.now)

    def functions(self):
        self.loop.create_task(self.discover())
        self.loop.run_to_end(self.end)

    async def discover(self):
        d = stack.ks().client.knxnet_ip_discovery
        cfg = self.cfg
        if cfg["order"] == "listen":
            self.listener = await d.listen_discovery_responses(cfg["ip"], cfg["port"])
            await asyncio.sleep(cfg["gap"])
        self.expected_asks += 1
        self.requester = await d.send_discovery_request(cfg["ip"], cfg["port"])
        if cfg["order"] != "listen":
            await asyncio.sleep(cfg["gap"])
            self.listener = await d.listen_discovery_responses(cfg["ip"], cfg["port"])

    async def again(self):
        d = stack.ks().client.knxnet_ip_discovery
        self.requester[0].close()
        await asyncio.sleep(0)
        self.expected_asks += 1
        self.requester = await d.send_discovery_request(self.cfg["ip"], self.cfg["port"])

    def do(self, op):
        k = op["op"]
        if k == "icmp":
            for tr in (self.listens if op["where"] == "l" else self.requests):
                self.net.fire("icmp error")
                tr.error(ConnectionRefusedError(111, "Connection refused"))
        elif k == "raw":
            addr = (self.cfg["ip"], self.cfg["port"] if op["where"] == "l" else 3671)
            if self.net.inject(addr, bytes.fromhex(op["data"]), (op.get("src", "10.9.9.9"), 3671)):
                self.net.fire("injected " + op["tag"])
        elif k == "late":
            g = self.gateways[op["g"] % len(self.gateways)] if self.gateways else None
            if g:
                self.net.fire("unsolicited response")
                g.answer((self.cfg["ip"], self.cfg["port"]))
        elif k == "again" and self.cfg["mode"] == "functions" and getattr(self, "requester", None):
            self.probe("second discovery")
            self.loop.create_task(self.again())

    # --- oracles
    def on_client_sent(self, transport, data, addr):
        super().on_client_sent(transport, data, addr)
        cfg = self.cfg
        want = wire.frame(wire.SEARCH_REQ, wire.hpai(cfg["ip"], cfg["port"]))
        if addr != MCAST or data != want:
            self.violate({"C07"}, "request", "sent %s to %s instead of %s to %s" % (data.hex(), addr, want.hex(), MCAST))
            return
        self.asked += 1
        if self.asked > self.expected_asks:
            self.violate({"C07"}, "request-twice", "more than one search request")

    def on_deliver(self, d, ep):
        super().on_deliver(d, ep)
        if ep in self.listens:
            self.cur_listen = []
            self.cur_results = []

    def on_decode_error(self, e):
        self.event("decode-error", type(e).__name__)

    def on_decoded(self, result):
        if self.cur_listen is not None:
            self.cur_results.append(list(result or ()))

    def after_deliver(self, d, ep):
        super().after_deliver(d, ep)
        if ep not in self.listens:
            return
        texts, results = self.cur_listen, self.cur_results
        self.cur_listen = None
        got = []
        cls = stack.ks().knxnet_ip.core.search.res.Msg
        for r in results:
            got += [x for x in r if isinstance(x, cls)]
        p = wire.parse(d.data)
        want = None
        if p and p[0] == wire.SEARCH_RES:
            b = p[1]
            if len(b) >= 8 + 0x36 and b[:2] == b"\x08\x01" and b[8:10] == b"\x36\x01":
                want = (".".join(str(x) for x in b[2:6]), (b[6] << 8) | b[7], (b[12] << 8) | b[13], (b[10] << 8) | b[11])
            elif len(b) < 0x36 + 8:
                self.probe("truncated search response")
                return
        if want is None:
            if got:
                self.violate({"C07"}, "reported-other", "%s reported as %s" % (d.data.hex(), got))
            self.probe("not a search response")
            return
        if len(got) != 1:
            self.violate({"C07"}, "not-reported" if not got else "reported-twice",
                         "the response of %s is reported %d times" % (want[:2], len(got)))
            return
        g = got[0]
        ia = getattr(g.individual_address, "value", g.individual_address)
        self.event("report", g.ip, g.port, ia)
        if (g.ip, g.port) != want[:2]:
            self.violate({"C07"}, "endpoint", "the gateway %s is reported as %s:%s" % (want[:2], g.ip, g.port))
        if ia != want[2]:
            v = "the individual address 0x%04X of gateway %s is reported as 0x%04X" % (want[2], want[0], ia)
            self.violate({"C07"}, "individual-address", v)
            if ia == want[3]:
                self.violations[-1]["sig"] = SIG
        if not any(str(g) in t for t in texts):
            self.violate({"C07"}, "not-shown", "the response of %s is decoded and not shown" % (want[:2],))
        self.reported += 1
        self.probe("gateway reported")

    def finish(self):
        if self.asked != self.expected_asks:
            self.violate({"C07"}, "no-request", "%d search requests for %d discoveries" % (self.asked, self.expected_asks))
        for t, m, e in self.loop.exceptions:
            self.event("exception", m, type(e).__name__)
        for tr in self.listens:
            if tr.closed and self.cfg["mode"] == "functions":
                self.violate({"C07"}, "listener-closed", "the listener closed its endpoint")

    def stats(self):
        return {"fired": self.net.fired, "probes": self.probes, "sim_s": self.loop.now, "datagrams": self.net.delivered,
                "reordered": self.net.reordered, "reports": self.reported}


# ------------------------------------------------------------------ cases
def gen_discovery(rng, prop, tier, i):
    mode = "script" if i % 4 == 0 else "functions"
    local = rng.choice(["10.0.0.2", "172.31.10.111", "192.168.255.1"])
    gws = []
    for n in range(rng.choice([0, 1, 1, 2, 3, 5, 9]) if i % 60 != 17 else rng.choice([17, 33, 65, 101])):      # a large site
        gws.append(dict(ip="10.0.%d.%d" % (rng.randrange(1, 256), n + 3), port=rng.choice([3671, 3671, 3672, 1024, 65535, 255, 256, 0, 1, 80]),
                        medium=rng.choice([2, 2, 4, 0x10, 0x20]), status=rng.choice([0, 0, 1]), ia=rng.choice([0xFFFF, 0x1001, 0x110A, 0x0200, 0, rng.randrange(65536)]),
                        name=rng.choice(["KNX IP", "", "KNX IP Interface N148", "x" * 29, "\xc3\x84 \xff"]), delay=rng.choice([0.0, 0.0, 0.01, 0.3, 3.0, 9.0]),
                        replies=rng.choice([1, 1, 1, 1, 2]) if i % 180 != 17 else 5, extra=rng.choice(["", "", "04fe0001", "06fe00020304"])))
    if gws and rng.random() < 0.2:
        gws.append(dict(gws[0], ip="10.1.0.1"))      # two gateways which differ only in the address
    cfg = dict(mode=mode, ip=local, port=5544 if mode == "script" else rng.choice([5544, 1024, 65535, 3672]), order=rng.choice(["listen", "listen", "request"]),
               gap=rng.choice([0.0, 0.0, 0.5]), gateways=gws, net=gen.gen_net(rng))
    if mode == "script":
        cfg["order"] = "listen"
    if rng.random() < 0.1:
        cfg["shared"] = rng.choice(["addr", "both"])
    t = gen.gen_tables(rng)
    ops = []
    for _ in range(rng.choice([0, 0, 2, 6, 12])):
        good = wire.search_res("10.7.7.%d" % rng.randrange(1, 255), 3671, 2, 0, rng.randrange(65536))
        k = rng.randrange(9)
        o = {"t": round(rng.choice([rng.uniform(0, 0.2), rng.uniform(0, 12)]), 4), "op": "raw", "where": rng.choice(["l", "l", "l", "r"])}
        if k == 0:
            o.update(data=rng.choice(["", "06", "0610", "061002", "06100202", "0610020200", "061002020006"]), tag="short datagram")
        elif k == 1:
            o.update(data=bytes(rng.randrange(256) if j else rng.choice([0, 5, 255]) for j in range(rng.randint(1, 60))).hex(), tag="garbage")
        elif k == 2:
            o.update(data=(good[:1] + bytes([rng.choice([0x11, 0x20, 0])]) + good[2:]).hex(), tag="other version")
        elif k == 3:
            o.update(data=(good[:2] + rng.choice([0x0201, 0x0203, 0x0204, 0x020B, 0x0530, 0xFFFF]).to_bytes(2, "big") + good[4:]).hex(), tag="other service")
        elif k == 4:
            o.update(data=good[:rng.randint(6, len(good) - 9)].hex(), tag="truncated response")
        elif k == 5:
            o.update(data=rng.choice([wire.tun_req(1, 0, gen.gen_cemi(rng, t)), wire.tun_ack(1, 0), wire.connect_res(3, 0, "10.0.0.1", 3671),
                                      wire.connect_res(0, 0x24, "10.0.0.1", 3671), wire.frame(0x0208, b"\x01\0"), wire.frame(0x020A, b"\x01\0"),
                                      wire.frame(wire.SEARCH_REQ, wire.hpai("10.0.0.77", 4000))]).hex(), tag="datagram of another service")
        elif k == 6:
            o.update(data=good.hex(), tag="response of an unknown gateway")
        elif k == 7:
            o = {"t": o["t"], "op": "icmp", "where": o["where"]}
        else:
            o = {"t": o["t"], "op": "late", "g": rng.randrange(10)}
        ops.append(o)
    if rng.random() < 0.2:
        ops.append({"t": round(rng.uniform(1, 15), 3), "op": "again"})
    faults = []
    if rng.random() < 0.6:
        for n in range(len(gws)):
            for k in range(3):
                if rng.random() < 0.4:
                    faults.append({"link": "g%d>l" % n, "n": k, "kind": rng.choice(["drop", "dup", "dup", "delay"]), "arg": rng.choice([0.0, 0.001, 0.5, 5.0])})
    if rng.random() < 0.1:
        faults.append({"link": "r>all", "n": 0, "kind": rng.choice(["drop", "dup", "delay"]), "arg": 0.4})
    return dict(world="discovery", cfg=cfg, ops=ops, faults=faults)
