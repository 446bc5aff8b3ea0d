"""World: an installation (C15): tunnelling clients at a gateway, USB HID clients at real daemons, plain devices, one bus.

All nodes run in one process on one loop. The bus is the ground truth: which frames it carried, in which order, from which
interface; what each node delivers is compared with it."""
import asyncio
import contextvars

from . import gen, stack, wire
from .daemon import packet_of
from .gateway import Gateway
from .kernel import Kernel
from .net import Net, mix
from .simloop import SimStreamTransport, get_new_loop
from .tunnel import GW, World


OWNER = contextvars.ContextVar("owner", default=None)     # the session a task of a USB client belongs to


class Bus:
    """carries one frame at a time to all interfaces but the sender's, which gets the confirmation"""

    def __init__(self, world):
        self.w = world
        self.free = 0.0
        self.carried = []       # (sender, cemi request)

    def send(self, sender, c):
        t = max(self.free, self.w.loop.now) + 0.02
        self.free = t
        self.w.loop.call_at(t, self.carry, sender, c)

    def carry(self, sender, c):
        w = self.w
        n = 2 + c[1]
        src = sender.ia if sender is not None else None
        self.carried.append((sender, c))
        w.event("bus", sender.name if sender else "device", c.hex())
        body = c[1:]
        ind = bytes([wire.IND]) + body
        if src is not None:
            ind = ind[:n + 2] + src.to_bytes(2, "big") + ind[n + 4:]
            con = bytes([wire.CON]) + ind[1:n] + bytes([ind[n] & 0xFE]) + ind[n + 1:]
            sender.receive(con)
        for i in w.interfaces:
            if i is not sender:
                i.receive(ind)


class TunnelInterface:
    """one tunnelling connection of the gateway"""

    def __init__(self, world, gw, conn, node):
        self.w, self.gw, self.conn, self.node = world, gw, conn, node
        self.name = "tunnel%d" % conn.serial
        self.ia = node.node.model.ia
        self.frames = {}

    def receive(self, c):
        fid = self.gw.push(self.conn, c)
        if fid is not None:
            self.frames[fid] = c


class E2EGateway(Gateway):
    """a connection for each connect request; a repeated one of the same endpoint replaces the old connection"""

    def __init__(self, world, *a):
        super().__init__(*a)
        self.w = world
        self.seen = {}            # endpoint -> the life of the node which connected from it

    def _connect(self, b, src):
        control = self._hpai(b)
        life = next((n.generation for n in self.w.nodes if n.medium == "ip" and n.local == control), None)
        if self.seen.get(control) == life:
            if any(c.open and c.control == control for c in self.conns):
                super()._connect(b, src)      # repeated: the same answer again
            return
        self.seen[control] = life
        for c in self.conns:
            if c.open and c.control == control:
                self.close(c, "replaced")
        super()._connect(b, src)

    def _answer(self, p, control, data):
        for c in self.conns:
            if self.up and c.open and c.control == control:
                self.close(c, "replaced")     # the deferred answer of an earlier life
        used = {c.channel for c in self.conns}
        p = dict(p, channel=next(ch for ch in range(p["channel"], 600) if ch & 0xFF not in used and ch & 0xFF) & 0xFF)
        before = len(self.conns)
        super()._answer(p, control, data)
        for c in self.conns[before:]:
            self.w.new_connection(c, control)

    def gave_up(self, c, fid, seq, datagrams):
        self.w.probe("gateway gave up")


class TunnelNode:
    medium = "ip"

    def __init__(self, world, i, cfg, node):
        self.w, self.i, self.cfg, self.node = world, i, cfg, node
        self.name = "n%d" % i
        self.deliveries = []
        self.conns = []           # interfaces, in order
        self.sessions = []        # messages of each start
        self.transport = self.task = None
        self.early = set()
        self.stale = False
        self.up = self.adopted = False
        self.ports = 0
        self.generation = 0
        self.local = ("10.0.1.%d" % (i + 1), 5544)
        world.names[self.local] = self.name
        world.tap.add(node.state, self)

    def start(self, msgs, fresh=False, same_port=True):
        if self.up:
            self.crash("")
        if fresh:
            self.node.new_state()
            self.w.tap.add(self.node.state, self)
        if not same_port:
            self.ports += 1
            self.local = (self.local[0], 5544 + self.ports)
            self.w.names[self.local] = self.name
        self.up = True
        self.adopted = False
        self.generation += 1
        self.sessions.append(list(msgs))
        self.w.event("start", self.name)
        self.w.loop.create_task(self.run([self.node.message(m) for m in msgs], self.generation))

    async def run(self, msgs, generation):
        cl = stack.ks().client.knxnet_ip
        try:
            transport, protocol = await cl.start_tunneling(self.local[0], self.local[1], GW[0], GW[1], self.node.state, msgs)
        except Exception as e:
            self.w.violate({"C15"}, "node-failed", "node %s: start_tunneling raised %r" % (self.name, e))
            return
        if generation != self.generation:
            transport.close()
            return
        self.transport = transport
        self.task = self.w.loop.create_task(protocol.writer())
        self.task.add_done_callback(self.done)

    def done(self, task):
        if not task.cancelled() and task.exception() is not None:
            self.w.violate({"C15"}, "node-failed", "node %s: the writer failed with %r" % (self.name, task.exception()))

    def crash(self, how):
        if not self.up:
            return
        self.up = False
        self.generation += 1
        if self.task is not None:
            self.task.cancel()
        if self.transport is not None:
            self.transport.close()
        self.task = self.transport = None
        self.w.event("crash", self.name)

    def on_decode_error(self, e):
        pass

    def on_decoded(self, result):
        k = stack.ks().knxnet_ip
        for x in result or ():
            if isinstance(x, k.core.connect.res.Msg) and x.status == k.ErrorCodes.E_NO_ERROR:
                self.adopted = True
        # whether a request which overtakes the connect response is delivered is left open
        n = len(self.deliveries)
        self.w.delivered(self, result)
        if not self.adopted and len(self.deliveries) > n:
            self.early.add(n)
            self.w.probe("delivery before the connect response")

    # --- what has to be true in the end
    def verify(self):
        w = self.w
        steps = []                # (messages, required)
        for iface in self.conns:
            for fid in iface.conn.sent:
                want = wire.expected_messages(self.node.model, iface.frames[fid])
                if want:
                    steps.append((want, fid in iface.conn.acked))
        if self.stale:            # it was told of a dead connection: which of its frames count, and when, is left open
            w.probe("answer of a dead connection")
        else:
            w.match(self, steps, early=self.early)
        # what it sent
        sent = [stack.expected_request(self.node.model, m) for msgs in self.sessions for m in msgs]
        pos = {}                  # a datagram of an old connection may come late
        for sender, c in w.bus.carried:
            if not isinstance(sender, TunnelInterface) or sender.node is not self:
                continue
            got = stack.request_content(c)
            k = pos.get(sender, 0)
            while k < len(sent) and sent[k] != got:
                k += 1
            if k == len(sent):
                w.violate({"C15"}, "wrong-frame", "node %s put %s on the bus, its messages are %s" % (self.name, got or c.hex(), sent[:8]))
                return
            pos[sender] = k + 1
        if w.calm(self):
            n = sum(1 for s, c in w.bus.carried if isinstance(s, TunnelInterface) and s.node is self)
            if n != len(sent):
                w.violate({"C15"}, "message-lost", "node %s sent %d messages without a fault, the bus carried %d" % (self.name, len(sent), n))
            else:
                w.probe("node without faults: all its messages on the bus")


class UsbInterface:
    """a USB interface: the HID device, the real daemon and its clients; also the kernel's host"""

    def __init__(self, world, i, cfg):
        self.w, self.i, self.cfg = world, i, cfg
        self.name = "usb%d" % i
        self.ia = cfg["ia"]
        self.nodes = []
        self.kernel = None
        self.generation = 0
        self.writes = 0

    def boot(self):
        self.generation += 1
        self.kernel = Kernel(self, self.cfg.get("eps", 0.0), 128, 1e-4, slot=self.i)
        self.kernel.time_wait = self.generation > 1
        self.kernel.start()

    def restart(self):
        """the daemon is killed and started again: its connections break, its port is in TIME_WAIT"""
        if not self.kernel.alive:
            return
        self.w.fire("daemon killed and restarted")
        conns = self.kernel.open_conns() + (self.kernel.listener.backlog if self.kernel.listener else [])
        self.kernel.finish()
        for c in conns:
            c.client.broken()
        self.boot()

    def receive(self, c):
        self.kernel.report(wire.usb_report(c).ljust(56, b"\0"))

    # --- the kernel's host
    def now(self):
        return self.w.loop.now

    def call_later(self, delay, fn, *args):
        if delay <= 0:
            self.w.loop.call_soon(fn, *args)
        else:
            self.w.loop.call_later(delay, fn, *args)

    def on_syscall(self, name, args, ret, err):
        if name in ("READ", "WRITE", "ACCEPT", "CLOSE"):
            self.w.event("sys", self.name, name, args[0], ret)

    def on_accept(self, conn):
        conn.client.accepted()

    def on_accept_fault(self, e):
        pass

    def on_aborted(self, conn):
        pass

    def on_report(self, report, got):
        c = wire.parse_usb(report)
        for conn in self.kernel.open_conns():
            conn.client.report(c)

    def on_sent(self, conn, data, arrives):
        conn.client.from_daemon(data)

    def on_read(self, conn, data):
        pass

    def on_hid_write(self, data):
        self.writes += 1
        c = wire.parse_usb(data)
        self.w.event("hid", self.name, data.hex())
        if c is None:
            if not self.w.junk:
                self.w.violate({"C15"}, "malformed-packet", "interface %s got the packet %s" % (self.name, data.hex()))
            return
        self.w.bus.send(self, c)

    def on_close(self, conn):
        conn.client.closed_by_daemon()

    def on_idle(self, timed=False):
        pass

    def on_exit(self, cls, what):
        self.w.violate({"C15"}, "daemon-" + cls, "interface %s: %s" % (self.name, what))

    # --- the loop's network: see E2EWorld.tcp_connect

    def verify(self):
        """the frames of this interface are an interleaving of what its clients sent"""
        w = self.w
        queues = [[stack.expected_request(n.node.model, m) for m in s["msgs"]] for n in self.nodes for s in n.sessions]
        must = [s["wrote"] if s["safe"] else 0 for n in self.nodes for s in n.sessions]
        frontier = {tuple(0 for _ in queues)}
        for sender, c in w.bus.carried:
            if sender is not self:
                continue
            got = stack.request_content(c)
            new = set()
            for st in frontier:
                for q in range(len(queues)):
                    if st[q] < len(queues[q]) and queues[q][st[q]] == got:
                        new.add(st[:q] + (st[q] + 1,) + st[q + 1:])
                if len(new) > 500:
                    break
            if not new:
                w.violate({"C15"}, "wrong-frame", "interface %s put %s on the bus, due were %s" %
                          (self.name, got or c.hex(), [q[k] for q, k in zip(queues, sorted(frontier)[0]) if k < len(q)][:4]))
                return
            frontier = new
        if not any(all(k >= n for k, n in zip(st, must)) for st in frontier):
            w.violate({"C15"}, "message-lost", "interface %s: lines written by its clients %s, frames on the bus %s" %
                      (self.name, must, sorted(frontier)[0]))


class Stream:
    """one TCP connection between a USB node (or a plain client) and a daemon, with latency and segmentation"""

    def __init__(self, world, iface, node):
        self.w, self.iface, self.node = world, iface, node
        self.conn = iface.kernel.connect(self)
        self.transport = None
        self.up_at = self.down_at = 0.0
        self.n = 0
        self.dead = False
        self.was_accepted = False

    def delay(self):
        self.n += 1
        return 0.0005 + 0.003 * mix(self.w.cfg["tcpseed"], self.iface.i, self.n, self.node.i if self.node else 99)

    def cut(self, data):
        """the segments of data"""
        style = self.w.cfg.get("segments", 0)
        if not style or len(data) < 2:
            return [data]
        k = 1 + int(mix(self.w.cfg["tcpseed"], "cut", self.n) * len(data))
        if style == 1:
            return [data[:k], data[k:]] if k < len(data) else [data]
        return [data[i:i + 1 + k % 17] for i in range(0, len(data), 1 + k % 17)]

    # client -> daemon
    def client_wrote(self, data):
        for s in self.cut(data):
            self.up_at = max(self.up_at, self.w.loop.now + self.delay())
            self.w.loop.call_at(self.up_at, self.conn.feed, s)

    def client_eof(self):
        self.up_at = max(self.up_at, self.w.loop.now + self.delay())
        self.w.loop.call_at(self.up_at, self.conn.half_close)

    def client_closed(self):
        self.up_at = max(self.up_at, self.w.loop.now + self.delay())
        self.w.loop.call_at(self.up_at, self.conn.close_from_client)

    # daemon -> client
    def from_daemon(self, data):
        for s in self.cut(data):
            self.down_at = max(self.down_at, self.w.loop.now + self.delay())
            self.w.loop.call_at(self.down_at, self.feed, s)

    def feed(self, item):
        if self.transport is not None and not self.dead:
            self.transport.feed(item)

    def accepted(self):
        self.was_accepted = True

    def report(self, c):
        if self.node is not None and not self.dead:
            self.session["due"].append(c)

    def closed_by_daemon(self):
        if self.node is not None and not self.dead and not self.conn.fin and not self.conn.dead:
            self.w.violate({"C15"}, "client-dropped", "interface %s disconnected node %s" % (self.iface.name, self.node.name))

    def broken(self):
        if self.node is not None:
            self.session["safe"] = False
            self.session["cut"] = True
        self.down_at = max(self.down_at, self.w.loop.now + self.delay())
        self.w.loop.call_at(self.down_at, self.feed, ConnectionResetError(104, "Connection reset by peer"))


class UsbNode:
    medium = "usb"

    def __init__(self, world, i, cfg, node, iface):
        self.w, self.i, self.cfg, self.node, self.iface = world, i, cfg, node, iface
        self.name = "n%d" % i
        self.sessions = []
        self.up = False
        self.stream = None
        iface.nodes.append(self)
        world.tap.add(node.state, self)

    @property
    def deliveries(self):
        return self.sessions[-1]["got"] if self.sessions else self.w.spare

    def start(self, msgs, fresh=False, same_port=True):
        """runs outside of the loop, as the client does"""
        if self.up:
            self.crash("fin")
        if fresh or self.sessions:
            # tasks of an earlier client are gone with it; its State may be used again
            if fresh:
                self.node.new_state()
                self.w.tap.add(self.node.state, self)
        if not self.iface.kernel.alive:
            return
        session = dict(msgs=list(msgs), due=[], got=[], wrote=0, safe=True, cut=False)
        self.sessions.append(session)
        self.w.event("start", self.name)
        self.w.connecting = self
        self.context = contextvars.copy_context()
        self.context.run(OWNER.set, session)
        try:
            self.client = self.context.run(stack.ks().client.usbhid.Client, "10.0.2.%d" % self.iface.i, 5555, self.node.state,
                                           [self.node.message(m) for m in msgs])
        except Exception as e:
            self.w.violate({"C15"}, "node-failed", "node %s does not start: %r" % (self.name, e))
            return
        self.up = True

    def crash(self, how):
        if not self.up:
            return
        self.up = False
        s = self.sessions[-1]
        s["safe"] = False
        s["cut"] = True
        st = self.stream
        st.dead = True
        for t in sorted(asyncio.all_tasks(self.w.loop), key=lambda t: int(t.get_name().rsplit("-", 1)[1])):
            if t.get_context().get(OWNER) is s:
                t.cancel()
        st.transport.closed = True
        delay = st.delay()
        self.w.loop.call_later(delay, st.conn.reset if how == "rst" else st.conn.close_from_client)
        self.w.event("crash", self.name)

    def wrote(self, session, data):
        session["buffer"] = session.get("buffer", b"") + data
        while b"\n" in session["buffer"]:
            line, session["buffer"] = session["buffer"].split(b"\n", 1)
            session["wrote"] += 1
            if session["wrote"] > len(session["msgs"]) or packet_of(line) is None:
                self.w.violate({"C15"}, "wrong-line", "node %s wrote %r" % (self.name, line))

    def on_decode_error(self, e):
        pass

    def on_decoded(self, result):
        self.w.delivered(self, result)

    def verify(self):
        for s in self.sessions:
            steps = [(want, not s["cut"]) for want in (wire.expected_messages(self.node.model, c) for c in s["due"]) if want]
            if s["cut"]:
                n = len(s["got"])
                steps = [(x, True) for x, _ in steps[:n]]
            self.w.match(self, steps, s["got"])
            if not s["cut"] and self.up and s is self.sessions[-1] and s["wrote"] != len(s["msgs"]):
                self.w.violate({"C15"}, "message-lost", "node %s wrote %d of %d messages" % (self.name, s["wrote"], len(s["msgs"])))


class E2EWorld(World):
    def run(self):
        cfg = self.cfg
        self.fired = {}
        self.junk = False
        self.spare = []
        self.net = Net(cfg["net"], self.case.get("faults", []), self)
        self.loop = get_new_loop(self.net, max_steps=1500000)
        self.net.tcp_connect_delay = lambda host, port: 0.0
        self.net.tcp_connect = self.tcp_connect
        self.names[GW] = "g"
        self.bus = Bus(self)
        self.interfaces = []
        self.nodes = []
        self.usb = []
        with stack.Tap() as self.tap:
            try:
                self.gw = E2EGateway(self, cfg["gw"], self.loop, self.net, GW, self.on_bus)
                for i, d in enumerate(cfg["usb"]):
                    u = UsbInterface(self, i, d)
                    self.usb.append(u)
                    self.interfaces.append(u)
                    u.boot()
                for i, n in enumerate(cfg["nodes"]):
                    share = n.get("share")
                    if share is not None and share < i:
                        node = stack.Node.sharing(self.nodes[share].node, "ip" if n["on"] == "g" else "usb", "n%d" % i)
                    else:
                        node = stack.Node(n["node"], "ip" if n["on"] == "g" else "usb", "n%d" % i)
                    self.nodes.append(TunnelNode(self, i, n, node) if n["on"] == "g" else UsbNode(self, i, n, node, self.usb[n["on"]]))
                ops = sorted(self.case["ops"], key=lambda o: o["t"])
                last = 0.0
                for op in ops:
                    last = max(last, op["t"])
                    if op["op"] == "start" and self.nodes[op["n"]].medium == "usb":
                        self.loop.run_to_end(op["t"])
                        self.nodes[op["n"]].start(op.get("msgs", []), op.get("fresh", False))
                    elif op["op"] == "start" or op["t"] > self.loop.now:
                        self.loop.run_to_end(op["t"])
                        self.do(op)
                    else:
                        self.do(op)
                n = max([len(o.get("msgs", ())) for o in ops] + [0])
                self.loop.run_to_end(max(last, self.loop.now) + 10 * n + 30 + 4 * cfg["gw"].get("retries", 1))
                self.finish()
            finally:
                for u in self.usb:
                    if u.kernel is not None:
                        u.kernel.finish()
                errors = [e for e in self.loop.exceptions if e[2] is not None and not self.of_repo(e[2])]
                self.loop.dispose()
        if errors:
            raise errors[0][2]
        return self

    @staticmethod
    def of_repo(exc):
        from . import env
        return env.in_repo(exc) is not None

    def fire(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1

    # --- seams
    def tcp_connect(self, loop, protocol, host, port):
        node = self.connecting
        st = Stream(self, node.iface, node)
        node.stream = st
        st.session = node.sessions[-1]
        original = st.client_wrote

        def client_wrote(data, session=st.session):
            node.wrote(session, data)
            original(data)
        st.client_wrote = client_wrote
        st.transport = SimStreamTransport(loop, protocol, st)
        return st.transport

    def on_deliver(self, d, ep):
        super().on_deliver(d, ep)
        if isinstance(d.meta, tuple) and d.meta[0] == "connect" and d.meta[1] is not None:
            for n in self.nodes:
                if n.medium == "ip" and n.local == d.dst and n.conns and n.conns[-1].conn.serial != d.meta[1]:
                    n.stale = True

    def new_connection(self, conn, control):
        for n in self.nodes:
            if n.medium == "ip" and n.local == control:
                iface = TunnelInterface(self, self.gw, conn, n)
                conn.iface = iface
                n.conns.append(iface)
                self.interfaces.append(iface)
                self.event("connected", n.name, conn.channel)

    def on_bus(self, conn, c):
        if hasattr(conn, "iface"):
            self.bus.send(conn.iface, c)

    def delivered(self, node, result):
        try:
            msgs = [m for m in (stack.plain(x, node.node.model) for x in stack.messages(result)) if m is not None]
        except Exception as e:
            self.violate({"C15"}, "undecodable-message", "node %s: a delivered message cannot be read: %r" % (node.name, e))
            return
        if msgs:
            self.keep(result, {"C15"})
            self.event("app", node.name, repr(sorted(msgs, key=repr)))
            node.deliveries.append(msgs)
            self.probe("frame delivered")

    def calm(self, node):
        """did nothing happen to this node?"""
        return (len(node.sessions) == 1 and node.up and not node.stale and len(node.conns) == 1 and node.conns[0].conn.open
                and not any(node.name + ">" in f["link"] or ">" + node.name in f["link"] for f in self.case.get("faults", ()))
                and self.net.latency + self.net.jitter < 0.5)

    def match(self, node, steps, got=None, early=()):
        """got: what was delivered; steps: (messages, required) in order; early: indices of got which may be skipped"""
        got = node.deliveries if got is None else got
        front = {0}

        def close(front):
            out = set(front)
            for p in sorted(front):
                while p < len(steps) and not steps[p][1]:
                    p += 1
                    out.add(p)
            return out
        for i, msgs in enumerate(got):
            front = close(front)
            new = {p + 1 for p in front if p < len(steps) and stack.same(steps[p][0], msgs)}
            if i in early:
                new |= front
            if not new:
                due = [steps[p][0] for p in sorted(front) if p < len(steps)][:3]
                self.violate({"C15"}, "wrong-delivery", "node %s delivered %s as its delivery %d, the bus asks for %s" % (node.name, msgs, i, due))
                return
            front = new
        if len(steps) not in close(front):
            p = max(front)
            while p < len(steps) and not steps[p][1]:
                p += 1
            self.violate({"C15"}, "missing-delivery", "node %s did not deliver %s" % (node.name, steps[p][0] if p < len(steps) else None))

    def do(self, op):
        k = op["op"]
        if k == "bus":
            self.bus.send(None, bytes.fromhex(op["cemi"]))
        elif k == "start":
            n = self.nodes[op["n"]]
            if n.sessions:
                self.fire("node restarted")
            n.start(op.get("msgs", []), op.get("fresh", False), op.get("same", True))
        elif k == "crash":
            n = self.nodes[op["n"]]
            if n.up:
                self.fire("node crashed")
                n.crash(op.get("how", "rst"))
        elif k == "gateway":
            self.fire("gateway restarted")
            self.gw.restart(op.get("down", 0.5))
        elif k == "daemon":
            self.usb[op["d"]].restart()
        elif k == "junk":         # a plain client of the daemon: connects, sends something, leaves
            u = self.usb[op["d"]]
            if u.kernel.alive:
                self.fire("plain client of the daemon")
                st = Stream(self, u, None)
                if st.conn is None:
                    return
                data = bytes.fromhex(op["data"])
                if data:
                    st.client_wrote(data)
                if op.get("leave") == "rst":
                    self.loop.call_later(op.get("after", 0.01), st.conn.reset)
                elif op.get("leave"):
                    self.loop.call_later(op.get("after", 0.01), st.conn.close_from_client)
                if op.get("cap") is not None:
                    st.conn.cap = op["cap"]
        else:
            raise KeyError(k)

    def finish(self):
        if self.violations:
            return
        for n in self.nodes:
            n.verify()
        for u in self.usb:
            u.verify()

    def stats(self):
        fired = dict(self.net.fired)
        fired.update(self.fired)
        got = sum(len(n.deliveries) for n in self.nodes)
        return {"fired": fired, "probes": self.probes, "sim_s": self.loop.now, "nodes": len(self.nodes), "daemons": len(self.usb),
                "frames_on_bus": len(self.bus.carried), "deliveries": got, "datagrams": self.net.delivered,
                "tunnel_connections": len(self.gw.conns), "syscalls": sum(u.kernel.syscalls for u in self.usb if u.kernel)}


# ------------------------------------------------------------------ cases
BY_SIZE = {}
for _d, _n in wire.DPT_BYTES.items():
    BY_SIZE.setdefault(_n, []).append(_d)


def gen_installation(rng):
    sizes = {}
    while len(sizes) < rng.randint(2, 9):
        g = rng.choice([rng.randrange(1, 0x10000), rng.randrange(1, 0x200), 0x0F81, 0xFFFF, 1, 0x1001, 0x1101])
        sizes[g] = rng.choice([0, 0, 0, 1, 2, 4] if 4 in BY_SIZE else [0, 0, 1, 2])
    return sizes


def node_tables(rng, sizes, ia):
    assoc, dpts = [], {}
    for a in rng.sample([1, 2, 3, 5, 8, 100, 1000, 65535], rng.randint(1, 4)):
        size = rng.choice(sorted(set(sizes.values())))
        pool = sorted(g for g in sizes if sizes[g] == size)
        assoc.append([a, rng.sample(pool, rng.randint(1, min(3, len(pool))))])
        if rng.random() < 0.95 or not dpts:
            dpts[str(a)] = rng.choice(sorted(BY_SIZE[size]))
    return dict(ia=ia, max=255, assoc=assoc, dpts=dpts, explicit=[], style=gen.gen_style(rng))


def gen_msgs(rng, t, n):
    out = []
    model = wire.Tables(t)

    def one():
        writable = [a for a, g in t["assoc"] if a in model.dpts]
        if writable and rng.random() < 0.85:
            a = rng.choice(writable)
            return {"m": "write", "asap": a, "value": gen.gen_value(rng, model.dpts[a])}
        return {"m": "read", "asap": rng.choice([a for a, _ in t["assoc"]])}
    for _ in range(n):
        out.append(gen.again(rng, out, one))
    return out


def gen_e2e(rng, prop, tier, i):
    sizes = gen_installation(rng)
    usb = [dict(ia=0x1101 + 0x100 * k, eps=rng.choice([0.0, 1e-5])) for k in range(rng.choice([0, 1, 1, 1, 2]))]
    nodes = []
    count = rng.choice([2, 3, 3, 4, 5, 6])
    for k in range(count):
        on = rng.choice(["g"] + list(range(len(usb))) * 2) if usb else "g"
        if k == 0:
            on = "g"
        ia = 0x1201 + k if on == "g" else usb[on]["ia"]
        n = dict(on=on, node=node_tables(rng, sizes, ia))
        if k and rng.random() < 0.15:
            other = rng.randrange(k)
            if "share" not in nodes[other]:
                n["share"], n["node"] = other, nodes[other]["node"]
        nodes.append(n)
    gw = dict(plan=[dict(status=0, channel=rng.choice([1, 7, 116, 250]), delay=rng.choice([0, 0, 0.05, 0.6]))],
              retries=rng.choice([1, 2, 3, 5]), timeout=1.0)
    net = gen.gen_net(rng)
    cfg = dict(nodes=nodes, usb=usb, gw=gw, net=net, tcpseed=rng.randrange(1 << 30), segments=rng.choice([0, 1, 2]))
    ops = []
    span = 3.0
    for k, n in enumerate(nodes):
        t = rng.choice([0.1 * k + 0.05, round(rng.uniform(0.05, 3.0), 3)])
        msgs = gen_msgs(rng, n["node"], rng.choice([0, 1, 2, 4, 8]))
        span = max(span, t + 3 * len(msgs) + 1)
        ops.append({"t": t, "op": "start", "n": k, "msgs": msgs})
        r = rng.random()
        if r < 0.35:
            end = round(rng.uniform(t + 0.3, t + 3 * len(msgs) + 4), 3)
            ops.append({"t": end, "op": "crash", "n": k, "how": rng.choice(["rst", "fin"])})
            if rng.random() < 0.7:
                again = round(end + rng.choice([0.01, 0.5, 4.0]), 3)
                msgs = gen_msgs(rng, n["node"], rng.choice([0, 1, 3]))
                span = max(span, again + 3 * len(msgs) + 1)
                ops.append({"t": again, "op": "start", "n": k, "msgs": msgs, "fresh": rng.random() < 0.5, "same": rng.random() < 0.5})
    for _ in range(rng.choice([0, 2, 6, 15])):
        g = rng.choice(sorted(sizes))
        size = sizes[g]
        r = rng.random()
        if r < 0.7:
            v = rng.randrange(2) if size == 0 else rng.randrange(1 << 8 * size)
            tpdu = wire.npdu(rng.choice([wire.GROUP_WRITE, wire.GROUP_WRITE, wire.GROUP_RESP]), v, size)
            c = gen.gen_frame(rng, wire.IND, 0x1303, g, tpdu)
        elif r < 0.8:
            c = gen.gen_frame(rng, wire.IND, 0x1303, g, wire.npdu(wire.GROUP_READ))
        else:
            t = rng.choice(nodes)["node"]
            while True:
                c = gen.gen_other(rng, t)
                if c[0] == wire.IND:
                    break
        b = round(rng.uniform(0.5, span), 3)
        for _ in range(rng.choice([1, 1, 1, 4])):
            ops.append({"t": b, "op": "bus", "cemi": c.hex()})
    for d in range(len(usb)):
        if rng.random() < 0.3:
            for _ in range(rng.randint(1, 3)):
                data = rng.choice([b"", b"hello\n", b"zz", b"0113", b"\xff" * 600, b"01" * 200 + b"\n", b"\n\n\r\n", b"1\n"])
                ops.append({"t": round(rng.uniform(0.01, span), 3), "op": "junk", "d": d, "data": data.hex(), "leave": rng.choice(["rst", "fin", None]),
                            "after": rng.choice([0.0, 0.01, 2.0]), "cap": rng.choice([None, None, 0, 100])})
        if rng.random() < 0.12:
            t = round(rng.uniform(1.0, span), 3)
            ops.append({"t": t, "op": "daemon", "d": d})
            users = [k for k, n in enumerate(nodes) if n["on"] == d]
            for k in users:
                if rng.random() < 0.7:
                    msgs = gen_msgs(rng, nodes[k]["node"], rng.choice([0, 1, 3]))
                    ops.append({"t": round(t + rng.choice([0.3, 1.0]), 3), "op": "start", "n": k, "msgs": msgs, "fresh": rng.random() < 0.5})
    if rng.random() < 0.08:
        ops.append({"t": round(rng.uniform(1.0, span), 3), "op": "gateway", "down": rng.choice([0.1, 2.0])})
    links = []
    for k, n in enumerate(nodes):
        if n["on"] == "g" and rng.random() < 0.6:
            links += ["n%d>g" % k, "g>n%d" % k]
    faults = []
    if links and rng.random() < 0.8:
        kinds = rng.choice([("drop",), ("dup",), ("delay",), ("drop", "dup", "delay"), ("drop", "dup", "delay")])
        faults = [f for f in gen.gen_faults(rng, links, 60, rng.choice([0.03, 0.1, 0.2]), kinds) if f["n"] >= (1 if rng.random() < 0.95 else 0)]
    ops.sort(key=lambda o: o["t"])
    return dict(world="e2e", cfg=cfg, ops=ops, faults=faults)


def run_e2e(case):
    return E2EWorld(case).run()
