"""World: one knx_stack tunnelling client against a simulated gateway over a faulty network.

Oracles: a reference model of the receiving and the sending side, fed with every datagram the
client gets and checked against every datagram it sends and every message it delivers; and
gateway-side checks over the recorded history."""
from . import gen, stack, wire
from .gateway import Gateway
from .net import Net
from .simloop import get_new_loop

GRACE = 0.5           # simulated seconds the client has to answer
GW = ("10.0.0.1", 3671)
PROPS = ("pread", "presponse", "pwrite")


class World:
    """what the network needs to know, and the record of one run"""

    def __init__(self, case):
        self.case = case
        self.cfg = case["cfg"]
        self.violations = []
        self.log = []
        self.names = {}
        self.cur = None
        self.probes = {}

    def endpoint_name(self, addr):
        return self.names.get(addr, "%s:%s" % addr)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def violate(self, tags, cls, text):
        if self.controlled():
            tags = set(tags) | {self.COVERED}
        if len(self.violations) < 50:
            self.violations.append({"tags": sorted(tags), "cls": cls, "t": round(self.loop.now, 6), "text": text})

    COVERED = "C18"

    def controlled(self):
        """does the property of the core services cover the history so far?"""
        return False

    def keep(self, msgs, tags):
        """the application keeps what was delivered"""
        kept = self.__dict__.setdefault("kept", [])
        for x in msgs:
            if len(kept) < 300 and stack.plain(x, None) is not None:
                kept.append((x, stack.plain(x, None), repr(x), tags))

    def look_again(self):
        """and looks at it once more, in the end"""
        for x, before, text, tags in self.__dict__.get("kept", ()):
            try:
                after, now = stack.plain(x, None), repr(x)
            except Exception as e:
                after, now = None, repr(e)
            if (after, now) != (before, text):
                self.violate(tags | ({"C16"} if before[0] in stack.PROPERTIES else set()), "message-changed",
                             "a message delivered as %s %s has become %s %s" % (before, text, after, now))
                return

    def refuse(self, op):
        """the application makes a mistake"""
        if op["what"] in ("write", "read") and self.node.model.first(op["asap"]) is not None and (op["what"] == "read" or op["asap"] in self.node.model.dpts):
            return       # the tables know it by now
        before = stack.snapshot(self.node)
        how = stack.refused(self.node, op)
        after = stack.snapshot(self.node)
        if before != after:
            what = sorted(set(k for k in [*before, *after] if before.get(k) != after.get(k)))[0]
            self.violate({"C23"}, "tables-changed", "the failed call %s changed the %s from %s to %s" %
                         ({x: op[x] for x in op if x != "op"}, what, before.get(what), after.get(what)))
        self.refusals = getattr(self, "refusals", 0) + 1
        self.probe("refused: %s" % op["what"] if how is None else "not refused: %s" % op["what"])

    def event(self, *what):
        self.log.append((round(self.loop.now, 6),) + what)

    def messages_of(self, result):
        """what decode_msg returned, an iterable of messages"""
        try:
            out = list(result)
            bad = [x for x in out if not stack.is_message(x)]
        except TypeError:
            out, bad = [], [result]
        if bad:
            d = self.cur
            service = wire.parse(d.data)[0] if d is not None and wire.parse(d.data) else None
            tags = {wire.TUN_ACK: {"C03"}, wire.CONNECT_RES: {"C04"}, wire.DISC_RES: {"C04"}}.get(service, {"C01", "C02"})
            self.violate(tags, "not-a-message", "decoding %s returned %r, which is no message" % (d.data.hex() if d else "", bad[0]))
        return [x for x in out if stack.is_message(x)]

    def on_client_sent(self, transport, data, addr):
        self.event("tx", self.endpoint_name(transport.local_addr), self.endpoint_name(addr), data.hex())
        owner = getattr(transport, "owner", None)
        if owner is not None:
            owner.egress(data, addr)

    def on_transmit(self, d):
        pass

    def on_deliver(self, d, ep):
        self.cur = d
        self.event("rx", d.link, d.n, d.data.hex())
        owner = getattr(ep, "owner", None)
        if owner is not None:
            owner.ingress(d)

    def after_deliver(self, d, ep):
        owner = getattr(ep, "owner", None)
        if owner is not None:
            owner.after(d)
        self.cur = None


class Request:
    """a tunnelling request the client sent"""
    def __init__(self, idx, t, seq, channel, session):
        self.idx, self.t, self.seq, self.channel, self.session = idx, t, seq, channel, session
        self.datagram = None
        self.accepts = []     # times
        self.conn = None
        self.acks = []        # ack datagrams of the gateway
        self.nacked = False


class Client:
    """One endpoint of the code under test and the reference model of it."""

    def __init__(self, world, node, local, remote, name="c", oracle=True):
        self.w, self.node, self.local, self.remote, self.name = world, node, local, remote, name
        world.names[local] = name
        self.oracle = oracle
        self.protocol = self.transport = None
        self.generation = 0
        self.open = False
        self.connecting = False
        self.channel = None
        self.session = 0
        self.rx = self.local_seq = 0
        self.rx_any = False
        self.exp_acks = []        # [seq, deadline, first]
        self.exp_del = []         # [messages, deadline, first, frame id]
        self.exp_cstate = []      # [channel, deadline]
        self.delivered = []       # frame ids delivered
        self.deliveries = []      # (time, [messages])
        self.requests = []
        self.queue = []           # messages of the writer still to come
        self.direct = None
        self.writer_task = None
        self.accepted_at = None
        self.writers = []         # dicts
        self.requested = 0
        self.wild = False
        self.noise = False
        self.refusal = None       # status of the connect response being received
        self.refused = []         # statuses of the refusals decoded from it
        self.control = None       # the connection state or disconnect request being sent by the application
        self.reported = []        # connection state and disconnect responses decoded from the datagram being received
        self.exp_report = None    # the one it has to be decoded to
        self.ended = False        # the connection was ended by its disconnect response
        self.zero = True          # the State knows no channel
        self.lost = False         # a connect response out of place after the end: everything is left open
        self.controlled = False   # a response of the core services has been received

    # --- life
    def start(self, msgs, fresh=False, new_port=None):
        """(re)connect: a new protocol object as an application makes it"""
        w = self.w
        first = not self.generation
        self.stop()
        if fresh:
            self.node.new_state()
            self.zero = True
        self.ended = self.lost = False
        if w.cfg.get("used") and first:      # by an earlier connection
            st = self.node.state
            st.communication_channel_id, st.sequence_counter_remote, st.sequence_counter_local = w.cfg["used"]
            self.zero = False
            w.probe("first connection on a used State")
        if new_port:
            self.local = (self.local[0], new_port)
            w.names[self.local] = self.name
        w.tap.add(self.node.state, self)
        self.generation += 1
        self.open, self.connecting = False, True
        self.exp_acks, self.exp_del, self.exp_cstate = [], [], []
        self.connect_seen = 0
        self.queue = list(msgs)
        rec = {"n": len(msgs), "accepted": None, "done": None, "cancelled": False, "task": None, "stops": w.loop.stops,
               "started": w.loop.now}
        self.writers.append(rec)
        built = [self.node.message(m) for m in msgs]
        if w.cfg.get("spoilt") and len(self.writers) == 1:
            rec["needed"] = min(w.cfg["spoilt"][0], len(msgs))
            built = stack.spoil(self.node, built, w.cfg["spoilt"])
        if w.cfg.get("iter"):
            built = iter(built)
        w.loop.create_task(self._run(built, rec, self.generation))

    async def _run(self, built, rec, generation):
        ks = stack.ks()
        cl = ks.client.knxnet_ip
        try:
            transport, protocol = await cl.start_tunneling(self.local[0], self.local[1], self.remote[0], self.remote[1],
                                                           self.node.state, built)
        except Exception as e:
            if self.oracle:
                self.w.violate({"C04", "C06"}, "start-failed", "start_tunneling raised %r" % (e,))
            return
        if generation != self.generation:
            transport.close()
            return
        self.transport, self.protocol = transport, protocol
        if not self.connect_seen and self.oracle:
            self.w.violate({"C04"}, "no-connect-request", "no connect request after connection_made")
        task = self.w.loop.create_task(protocol.writer())
        rec["task"] = task
        task.add_done_callback(lambda t: self._writer_done(t, rec))

    def _writer_done(self, task, rec):
        if task.cancelled():
            rec["cancelled"] = True
            return
        exc = task.exception()
        rec["done"] = self.w.loop.now
        if exc is not None:
            rec["exc"] = repr(exc)
        self.w.event("writer-done", self.name, repr(exc) if exc else "")

    def stop(self):
        """the application goes away without a word"""
        if self.writers:
            rec = self.writers[-1]
            if rec["task"] is not None and not rec["task"].done():
                rec["cancelled"] = True
                rec["task"].cancel()
        if self.transport is not None:
            self.check_deadlines(final=True)
            self.transport.owner = None
            self.transport.close()
        self.transport = self.protocol = None
        self.generation += 1
        self.open = self.connecting = False
        self.queue = []

    def send(self, m):
        """the application sends a message itself"""
        if not self.open or self.protocol is None:
            return False
        self.direct = m
        try:
            self.protocol.send(stack.ks().encode_msg(self.node.state, self.node.message(m)))
        except Exception as e:
            self.w.violate({"C06"} | ({"C16"} if m["m"] in PROPS else set()), "send-raises", "sending %s raised %r" % (m, e))
            self.direct = None
            return True
        if self.direct is not None:
            self.w.violate({"C06"}, "send-nothing", "sending %s transmitted nothing" % (m,))
            self.direct = None
        return True

    def control_request(self, op):
        """the application asks for the state of the connection, or for its end"""
        if self.protocol is None or self.transport is None or self.lost or not (self.open or self.zero):
            return False
        core = stack.ks().knxnet_ip.core
        service = core.connectionstate if op["op"] == "cstate" else core.disconnect
        addr = (op.get("addr", self.local[0]), op.get("port", self.local[1]))
        self.control = (op["op"], addr)
        try:
            msg = service.req.Msg(addr_control_endpoint=addr[0], port_control_endpoint=addr[1])
            self.protocol.send(stack.ks().encode_msg(self.node.state, msg))
        except Exception as e:
            self.w.violate({"C18"}, "control-raises", "sending the %s request raised %r" % (op["op"], e))
            self.control = None
            return True
        if self.control is not None:
            self.w.violate({"C18"}, "control-nothing", "sending the %s request transmitted nothing" % op["op"])
            self.control = None
        return True

    def _egress_control(self, what, b):
        wanted, self.control = self.control, None
        want = bytes([self.channel if self.open else 0]), wire.hpai(*wanted[1])
        if wanted[0] != what or b[:1] != want[0] or b[2:] != want[1]:
            self.w.violate({"C18"}, "control-request", "the %s request for channel %d and %s:%d was sent as %s %s"
                           % (wanted[0], want[0][0], wanted[1][0], wanted[1][1], what, b.hex()))

    # --- model: datagrams received
    def ingress(self, d):
        if not self.oracle:
            return
        self.check_deadlines()
        now = self.w.loop.now
        self.noise = d.meta == "noise"
        p = wire.parse(d.data)
        if p is None:
            return
        service, b = p
        if service == wire.CONNECT_RES:
            if self.ended and len(b) >= 2 and b[1] == 0:
                self.lost, self.zero = True, False
                self.w.probe("connect response after the end")
            elif len(b) >= 14 and b[1] == 0:
                self.zero = False
                if not (self.open and self.channel == b[0]):
                    if self.open:
                        self.w.probe("connect response of another session")
                    self.open, self.connecting, self.channel = True, False, b[0]
                    self.session += 1
                    self.rx = self.local_seq = 0
                    self.rx_any = False
                    self.requested = 0
                    self.exp_acks, self.exp_del = [], []
                    self.exp_cstate.append([b[0], now + GRACE])
                    if self.writers and self.writers[-1]["accepted"] is None:
                        self.writers[-1]["accepted"] = now
                    self.w.probe("session accepted")
                    self.w.event("session", self.name, b[0])
                else:
                    self.w.probe("repeated connect response")
            elif len(b) >= 2 and b[1] != 0:
                self.w.probe("refused while open" if self.open else "refused")
                if b[1] in (0x22, 0x23, 0x24) and (len(b) == 2 or len(b) == 14):
                    self.refusal = b[1]
        elif service == wire.TUN_REQ:
            if not self.open or len(b) < 4 or b[1] != self.channel:
                self.w.probe("tunnelling request not of the channel")
                return
            seq = b[2]
            if seq == self.rx:
                first = not self.rx_any
                self.exp_acks.append([seq, now + GRACE, first])
                want = wire.expected_messages(self.node.model, b[4:])
                if want is None:
                    self.wild = True
                elif want:
                    self.exp_del.append([want, now + GRACE, first, d.meta])
                else:
                    self.delivered.append(d.meta)
                    self.w.probe("acked without delivery")
                self.rx = (self.rx + 1) & 0xFF
                self.rx_any = True
                if self.rx == 0:
                    self.w.probe("remote counter wrapped")
            elif seq == (self.rx - 1) & 0xFF and (self.rx_any or self.rx):
                self.exp_acks.append([seq, now + GRACE, False])
                self.w.probe("repeated request")
                if seq == 255:
                    self.w.probe("repeated request 255")
            elif seq == (self.rx - 1) & 0xFF:
                # nothing was accepted yet: left open
                self.exp_acks.append([seq, now + GRACE, None])
            else:
                self.w.probe("request out of sequence")
        elif service == wire.TUN_ACK:
            if not self.open or len(b) < 4 or b[1] != self.channel:
                self.w.probe("tunnelling ack not of the channel")
                return
            if b[3] != 0:
                self.w.probe("negative ack")
            elif b[2] == self.local_seq:
                self.local_seq = (self.local_seq + 1) & 0xFF
                if self.local_seq == 0:
                    self.w.probe("local counter wrapped")
            else:
                self.w.probe("stale ack")

        elif service == wire.CSTATE_RES and len(b) == 2 and self.open and b[0] == self.channel:
            self.controlled = True
            if b[1] in (0, 0x21, 0x26, 0x27):
                self.exp_report = ("cstate", b[1])
                self.w.probe("connection state %d" % b[1])
        elif service == wire.DISC_RES and len(b) == 2 and self.open:
            self.controlled = True
            if b[0] != self.channel:
                self.w.probe("disconnect response of another channel")
            elif b[1] == 0:
                self.exp_report = ("disc", 0, b[0])
                self.open, self.ended, self.zero = False, True, True
                self.exp_acks, self.exp_del = [], []
                if self.writers:
                    self.writers[-1]["cancelled"] = True
                self.w.probe("connection ended by its disconnect response")

    def after(self, d):
        self.noise = False
        want, self.exp_report = self.exp_report, None
        got, self.reported = self.reported, []
        if self.oracle and want is not None and got != [want]:
            self.w.violate({"C18"}, "control-report", "the response %s was decoded to %s instead of %s" % (d.data.hex(), got, want))
        refusal, self.refusal = self.refusal, None
        if not self.oracle:
            return
        if refusal is not None and d.meta != "noise" and self.refused != [refusal]:
            self.w.violate({"C04"}, "refusal-not-reported", "the refusal %s was decoded to the connect responses with status %s" % (d.data.hex(), self.refused))
        self.refused = []
        if self.protocol is not None and not self.ended and bool(self.protocol.connected) != self.open:
            self.w.violate({"C04"}, "connected-flag", "connected is %s after %s, the session is %s"
                           % (self.protocol.connected, d.data.hex(), "open" if self.open else "not open"))

    # --- what the code under test does
    def on_decode_error(self, e):
        self.w.event("decode-error", self.name, type(e).__name__)

    def on_decoded(self, result):
        result = self.w.messages_of(result)
        response = stack.ks().knxnet_ip.core.connect.res.Msg
        self.refused += [stack.number(x.status) for x in result if isinstance(x, response) and stack.number(x.status)]
        self.reported += [m for m in map(stack.plain_control, result) if m is not None]
        try:
            msgs = [m for m in (stack.plain(x, self.node.model) for x in (result or ())) if m is not None]
        except Exception as e:
            self.w.violate({"C01"}, "undecodable-message", "a delivered message cannot be read: %r" % (e,))
            return
        if not msgs:
            return
        self.w.keep(result, {"C01"})
        self.w.event("app", self.name, repr(sorted(msgs, key=repr)))
        self.deliveries.append((self.w.loop.now, msgs))
        if not self.oracle:
            return
        if not self.open:
            if self.noise:
                self.w.violate({"C05"}, "noise-delivered", "noise delivered %s" % (msgs,))
            return  # before the acceptance: left open
        tags = {"C01"}
        if self.noise:
            tags.add("C05")
        if any(m[0] in PROPS for m in msgs):
            tags.add("C16")
        if not self.exp_del:
            if self.wild:
                self.wild = False
                return
            self.w.violate(tags, "unexpected-delivery", "delivered %s, nothing was to be delivered" % (msgs,))
            return
        want, _, first, frame = self.exp_del.pop(0)
        if any(m[0] in PROPS for m in want):
            tags.add("C16")
        if first and not stack.same(want, msgs):
            tags.add("C04")
        if not stack.same(want, msgs):
            self.w.violate(tags, "wrong-delivery", "delivered %s instead of %s" % (msgs, want))
        self.delivered.append(frame)

    def egress(self, data, addr):
        if not self.oracle:
            return
        self.check_deadlines()
        if addr != self.remote:
            self.w.violate({"C04", "C06"}, "wrong-destination", "datagram %s sent to %s" % (data.hex(), addr))
        p = wire.parse(data)
        if p is None or not wire.total_length_ok(data):
            self.w.violate({"C02", "C04", "C06"}, "malformed-datagram", "malformed datagram %s" % data.hex())
            return
        service, b = p
        if service == wire.CONNECT_REQ:
            self.connect_seen += 1
            want = wire.hpai(*self.local) * 2 + bytes([4, 4, 2, 0])
            if b != want:
                self.w.violate({"C04"}, "connect-request", "connect request %s instead of %s" % (b.hex(), want.hex()))
            if self.connect_seen > 1:
                self.w.violate({"C04"}, "connect-request", "more than one connect request")
        elif self.control is not None and service in (wire.CSTATE_REQ, wire.DISC_REQ):
            self._egress_control("cstate" if service == wire.CSTATE_REQ else "disc", b)
        elif self.lost:
            return
        elif service == wire.DISC_REQ:
            self.w.violate({"C04", "C18"}, "disconnects", "a disconnect request %s which nobody asked for" % b.hex())
        elif service == wire.CSTATE_REQ:
            want = wire.hpai(*self.local)
            if not self.exp_cstate:
                self.w.violate({"C04"}, "connectionstate", "connection state request %s without an acceptance" % b.hex())
                return
            ch, _ = self.exp_cstate.pop(0)
            if b[:1] != bytes([ch]) or b[2:] != want:
                self.w.violate({"C04"}, "connectionstate", "connection state request %s for channel %d" % (b.hex(), ch))
        elif service == wire.TUN_ACK:
            self._egress_ack(b)
        elif service == wire.TUN_REQ:
            self._egress_request(b)

    def _egress_ack(self, b):
        if not self.open:
            if self.noise:
                self.w.violate({"C05"}, "noise-acked", "noise acknowledged: %s" % b.hex())
            return
        if len(b) != 4 or b[0] != 4:
            self.w.violate({"C02"}, "ack-malformed", "malformed ack %s" % b.hex())
            return
        for i, e in enumerate(self.exp_acks):
            if e[0] == b[2] and b[1] == self.channel and b[3] == 0:
                del self.exp_acks[i]
                return
        tags = {"C02"}
        if self.noise:
            tags.add("C05")
        if any(e[2] for e in self.exp_acks):
            tags.add("C04")
        self.w.violate(tags, "unexpected-ack", "ack %s (channel, number, status) sent, expected %s on channel %s"
                       % (tuple(b[1:]), [e[0] for e in self.exp_acks], self.channel))

    def _egress_request(self, b):
        now = self.w.loop.now
        if self.ended:
            return              # after the end: left open
        if not self.open:
            self.w.violate({"C04", "C06"}, "tunnels-before-accepted", "tunnelling request %s before the connection was "
                           "accepted" % b.hex())
            return
        if len(b) < 4 or b[0] != 4:
            self.w.violate({"C03", "C06"}, "request-malformed", "malformed request %s" % b.hex())
            return
        if b[1] != self.channel or b[2] != self.local_seq:
            tags = {"C03"}
            if self.requested == 0:
                tags.add("C04")
            self.w.violate(tags, "request-number", "request with channel %d number %d instead of channel %d number %d"
                           % (b[1], b[2], self.channel, self.local_seq))
        self.requested += 1
        r = Request(len(self.requests), now, b[2], b[1], self.session)
        self.requests.append(r)
        self.w.new_request = r
        got = stack.request_content(b[4:])
        if self.direct is not None:
            m, self.direct = self.direct, None
        elif self.queue:
            m = self.queue.pop(0)
        else:
            self.w.violate({"C06"}, "extra-request", "a request %s which no message asked for" % b.hex())
            return
        want = stack.expected_request(self.node.model, m)
        if got != want:
            tags = {"C06"}
            if m["m"] in PROPS:
                tags.add("C16")
            self.w.violate(tags, "request-content", "message %s sent as %s instead of %s" % (m, got or b[4:].hex(), want))

    def check_deadlines(self, final=False):
        if not self.oracle:
            return
        now = self.w.loop.now + (1e9 if final else 0)
        while self.exp_acks and self.exp_acks[0][1] < now:
            seq, deadline, first = self.exp_acks.pop(0)
            if first is None:
                continue
            self.w.violate({"C02"} | ({"C04"} if first else set()), "missing-ack",
                           "tunnelling request %d (channel %s) was not acknowledged" % (seq, self.channel))
        while self.exp_del and self.exp_del[0][1] < now:
            want, _, first, frame = self.exp_del.pop(0)
            tags = {"C01"} | ({"C04"} if first else set())
            if any(m[0] in PROPS for m in want):
                tags.add("C16")
            self.w.violate(tags, "missing-delivery", "%s was not delivered" % (want,))
        while self.exp_cstate and self.exp_cstate[0][1] < now:
            ch, _ = self.exp_cstate.pop(0)
            self.w.violate({"C04"}, "connectionstate", "no connection state request for channel %d" % ch)


class SimGateway(Gateway):
    """the gateway with the bookkeeping of the oracles"""

    def __init__(self, world, *a, **kw):
        super().__init__(*a, **kw)
        self.w = world
        self.given_up = []

    def gave_up(self, c, fid, seq, datagrams):
        self.given_up.append((c, fid, seq, datagrams))
        self.w.event("gateway-gave-up", c.channel, seq)
        self.w.probe("gateway gave up")

    def _request(self, b, src):
        cur = self.w.cur
        r = self.w.by_datagram.get(id(cur))
        c = self.by_channel(b[1])
        before = len(c.accepted) if c else 0
        sent0 = len(self.w.ack_out)
        super()._request(b, src)
        acks = self.w.ack_out[sent0:]
        if r is not None:
            for d in acks:
                if d.meta[0] == "nack":
                    r.nacked = True
                else:
                    r.acks.append(d)
            if c is not None:
                r.conn = r.conn or c
                if len(c.accepted) > before:
                    r.accepts.append((self.w.loop.now, c))
        if c is not None and len(c.accepted) > before:
            c.history.append(r)
            self.w.probe("request accepted")


class TunnelWorld(World):
    def __init__(self, case):
        super().__init__(case)
        self.by_datagram = {}
        self.datagrams = []
        self.new_request = None
        self.ack_out = []
        self.frames = {}    # (conn serial, frame id) -> Datagrams

    def controlled(self):
        if self.cfg.get("refuse") and getattr(self, "refusals", 0):
            self.COVERED = "C23"
            return True
        return self.cfg.get("control") and self.client.controlled

    def on_transmit(self, d):
        self.datagrams.append(d)   # keeps ids unique
        if self.new_request is not None and d.link.startswith("c"):
            self.new_request.datagram = d
            self.by_datagram[id(d)] = self.new_request
            self.new_request = None
        if d.meta and d.meta[0] in ("ack", "nack"):
            self.ack_out.append(d)
        if d.meta and d.meta[0] == "frame":
            self.frames.setdefault(d.meta[1:], []).append(d)

    # --- running
    def run(self):
        case, cfg = self.case, self.cfg
        self.net = Net(cfg["net"], case.get("faults", []), self)
        self.loop = get_new_loop(self.net)
        self.names[GW] = "g"
        ops = sorted(case["ops"], key=lambda o: o["t"])
        self.noise_ops = 0
        with stack.Tap() as self.tap:
            try:
                self.gw = SimGateway(self, cfg["gw"], self.loop, self.net, GW, bus=self.on_bus)
                self.node = stack.Node(cfg["node"], "ip", "c")
                self.client = Client(self, self.node, ("10.0.0.2", 5544), GW, oracle=cfg.get("oracle", True))
                _orig_bind = self.net.bind

                def bind(transport):
                    transport.owner = self.client
                    _orig_bind(transport)
                self.net.bind = bind
                self.client.start(cfg.get("msgs", []))
                for op in ops:
                    self.loop.call_at(op["t"], self.do, op)
                end = cfg.get("end") or 0
                last = max([o["t"] for o in ops] + [0])
                n = max([len(cfg.get("msgs", []))] + [len(o.get("msgs", ())) for o in ops])
                delay = sum(p.get("delay", 0) for p in cfg["gw"]["plan"]) + 60
                self.end = max(end, last + 10 * n + delay + 20)
                self.loop.run_to_end(self.end)
                self.finish()
            finally:
                self.loop.dispose()
        return self

    def on_bus(self, conn, cemi):
        if self.cfg["gw"].get("con", True):
            self.gw.confirm(conn, cemi)
        how = self.cfg["gw"].get("responder")
        f = wire.parse_cemi(cemi) if how else None
        if f and not f["group"] and f.get("apci") in (wire.PROP_READ, wire.PROP_WRITE) and len(f["data"]) >= 4:
            d = f["data"]
            apci, data = wire.PROP_RESP, d[4:] or bytes([d[1] ^ 0x5A, d[3]])
            if how == "echo":
                apci, data = f["apci"], d[4:]
            tpdu = wire.prop_tpdu(apci, d[0], d[1], d[2] >> 4, ((d[2] & 15) << 8) | d[3], data)
            answer = wire.cemi(wire.IND, self.cfg["node"]["ia"], 0x1102, tpdu, False)
            self.probe("property request answered")
            self.loop.call_later(0.03, self.gw.push, conn, answer)

    def do(self, op):
        k = op["op"]
        c = self.client
        if k == "bus":
            data = bytes.fromhex(op["cemi"])
            for conn in self.gw.active():
                self.gw.push(conn, data)
        elif k == "send":
            if c.send(op["m"]):
                self.probe("direct send")
        elif k in ("cstate", "disc"):
            if c.control_request(op):
                self.probe("connection state request" if k == "cstate" else "disconnect request")
        elif k == "refuse":
            self.refuse(op)
        elif k == "raw":       # a crafted datagram whose fields are relative to the session
            self.raw(op)
        elif k == "icmp":
            if c.transport is not None:
                self.net.fire("icmp error")
                c.transport.error(ConnectionRefusedError(111, "Connection refused"))
        elif k == "reject":
            for conn in self.gw.active():
                conn.reject.append(op["status"])
            self.net.fire("gateway rejects a request")
        elif k == "reconnect":
            self.net.fire("client crash and reconnect")
            c.start(op.get("msgs", []), op.get("fresh", False), op.get("port"))
        elif k == "stop":
            self.net.fire("client crash")
            c.stop()
        elif k == "restart":
            self.net.fire("gateway restart")
            self.gw.restart(op.get("down", 0.5))
        elif k == "table":
            if self.node.apply(op):
                self.probe("table operation under traffic")
                self.event("table", op["do"])
        else:
            raise KeyError(k)

    def raw(self, op):
        """op: kind + relative fields; handed to the client at this instant"""
        c = self.client
        if c.transport is None:
            return
        data = craft(op, c)
        if data is None:
            return
        self.noise_ops += 1
        self.net.fire("injected " + op.get("tag", op["kind"]))
        self.net.inject(c.local, data, GW if not op.get("src") else ("10.9.9.9", 1234))

    # --- history checks
    def finish(self):
        c = self.client
        if not c.oracle:
            return
        c.check_deadlines(final=True)
        self.check_writers()
        self.check_given_up()
        self.check_end_to_end()
        self.check_acceptance()

    def check_writers(self):
        for rec in self.client.writers:
            if rec["cancelled"] or rec["accepted"] is None or rec["task"] is None:
                if rec["done"] is not None and rec["accepted"] is None:
                    self.violate({"C06", "C04"}, "writer-before-accepted", "the writer finished (%s) without a connection"
                                 % rec.get("exc"))
                continue
            limit = max(rec["accepted"], rec["started"]) + 5 + 10 * rec["n"]
            spoilt = "needed" in rec
            if spoilt and rec["done"] is not None:
                self.probe("writer met a message which cannot be encoded")
            if rec.get("exc") and not spoilt:
                self.violate({"C06"}, "writer-raised", "the writer failed with %s" % rec["exc"])
            elif rec["done"] is None:
                if self.end > limit:
                    self.violate({"C06"}, "writer-stuck", "the writer did not finish within %.0f s of the acceptance"
                                 % (5 + 10 * rec["n"]))
            elif rec["done"] > limit:
                self.violate({"C06"}, "writer-slow", "the writer finished %.1f s after the acceptance"
                             % (rec["done"] - rec["accepted"]))
            if rec["done"] is not None and (spoilt or not rec.get("exc")):
                self.probe("writer finished")
                if rec is self.client.writers[-1]:
                    if len(self.client.queue) > (rec["n"] - rec["needed"] if spoilt else 0):
                        self.violate({"C06"}, "writer-skipped", "messages %s were never sent" % (self.client.queue,))
                    if self.loop.stops <= rec["stops"] and not rec.get("exc"):
                        self.violate({"C06"}, "loop-not-stopped", "the writer finished without stopping the loop")

    def check_given_up(self):
        """a gateway gives up only if each try lost a datagram or waited too long for it"""
        timeout = self.cfg["gw"].get("timeout", 1.0)
        if self.cfg.get("silent"):
            return
        for conn, fid, seq, datagrams in self.gw.given_up:
            if not conn.channel == self.client.channel and not self.client.open:
                continue
            for d in datagrams:
                ok = [t for t in d.delivered if t - d.t < timeout / 2]
                if not ok:
                    break
                # it arrived in time while the client served this channel?
                acks = [a for a in self.datagrams if a.link.startswith("c") and a.data[2:4] == b"\x04\x21"
                        and a.data[7] == conn.channel and a.data[8] == seq and d.t <= a.t < d.t + timeout]
                if acks and not any(x - d.t < timeout for a in acks for x in a.delivered):
                    break
                if not self.serving(conn, ok[0]):
                    break
            else:
                self.violate({"C02"}, "gateway-gave-up", "the gateway gave up request %d of channel %d although its "
                             "datagrams got through" % (seq, conn.channel))

    def serving(self, conn, t):
        """was the client's session the one of this connection at time t (by its own record)?"""
        ch = None
        for e in self.log:
            if e[0] > t:
                break
            if e[1] == "session":
                ch = e[3]
        return ch == conn.channel and not self.ambiguous

    @property
    def ambiguous(self):
        chans = [c.channel for c in self.gw.conns]
        return len(set(chans)) != len(chans) or any(o["op"] in ("reconnect", "restart", "stop", "disc") or o.get("own") for o in self.case["ops"])

    def outlived(self, n):
        """may a datagram have outlived 255 newer ones (and have become valid again)?"""
        return n >= 250 and any(f["kind"] != "drop" and f["arg"] > 0.2 for f in self.case.get("faults", ()))

    def check_end_to_end(self):
        if self.ambiguous or not self.gw.conns:
            return
        if self.outlived(max(len(c.sent) for c in self.gw.conns)):
            return
        for conn in self.gw.conns:
            got = [m[2] for m in self.client.delivered if isinstance(m, tuple) and m[0] == "frame" and m[1] == conn.serial]
            if got != sorted(got) or len(set(got)) != len(got):
                self.violate({"C01"}, "order", "frames delivered in order %s" % (got[:50],))
            have = set(got)
            missing = [f for f in conn.acked if f not in have]
            if missing and not self.client.wild:
                self.violate({"C01"}, "acked-not-delivered", "frames %s were acknowledged and not delivered" % missing[:20])

    def check_acceptance(self):
        reqs = self.client.requests
        if self.ambiguous or self.outlived(len(reqs)):
            return
        for conn in self.gw.conns:
            order = [r.idx for r in conn.history if r is not None]
            if len(set(order)) != len(order):
                self.violate({"C03"}, "accepted-twice", "a request was accepted twice: %s" % (order[-20:],))
            elif order != sorted(order):
                self.violate({"C03"}, "accepted-order", "requests accepted out of order: %s" % (order[-20:],))
        closed_at = {}
        for e in self.log:
            if e[1] == "gateway-gave-up":
                closed_at[e[2]] = e[0]
        for i, r in enumerate(reqs):
            if r.accepts or r.datagram is None:
                continue
            if r.channel in closed_at and closed_at[r.channel] < r.t + 10:
                continue
            nxt = reqs[i + 1].t if i + 1 < len(reqs) else float("inf")
            if r.nacked or not any(t < nxt for t in r.datagram.delivered):
                continue
            if i and reqs[i - 1].session == r.session:
                p = reqs[i - 1]
                if not any(t < r.t for t in p.datagram.delivered) or p.nacked:
                    continue
                if not any(t < r.t for a in p.acks for t in a.delivered):
                    continue
            if r.session != self.client.session:
                continue
            self.violate({"C03"}, "not-accepted", "request %d (number %d) reached the gateway in time and was not accepted"
                         % (i, r.seq))
            break

    def stats(self):
        return {"fired": self.net.fired, "probes": self.probes, "sim_s": self.loop.now,
                "datagrams": self.net.delivered, "reordered": self.net.reordered,
                "requests": len(self.client.requests), "deliveries": len(self.client.deliveries)}


def craft(op, c):
    """datagram for a raw op; c: the Client (its model)"""
    k = op["kind"]
    ch = c.channel if c.channel is not None else 1
    if k == "ack":       # relative ack: off 0 is the current number
        if not c.open:
            return None
        if op["off"] == 0 and op["status"] == 0 and op.get("ch", 0) == 0:
            return None
        return wire.tun_ack((ch + op.get("ch", 0)) & 0xFF, (c.local_seq + op["off"]) & 0xFF, op["status"])
    if k == "req":
        if not c.open:
            return None
        return wire.tun_req((ch + op.get("ch", 0)) & 0xFF, (c.rx + op["off"]) & 0xFF, bytes.fromhex(op["cemi"]))
    if k == "connect_res":
        if op["status"]:
            if op.get("long"):
                return wire.connect_res_refused_long(op["status"], *GW)
            return wire.connect_res(0, op["status"], *GW)
        if not c.open:
            return None
        return wire.connect_res(ch, 0, *GW)
    if k == "disc_res":
        if not c.open or (op["ch"] == 0 and not op["status"] and not op.get("own")):
            return None
        return wire.frame(wire.DISC_RES, bytes([(ch + op["ch"]) & 0xFF, op["status"]]))
    if k == "cstate_res":
        return wire.frame(wire.CSTATE_RES, bytes([(ch + op.get("ch", 0)) & 0xFF, op["status"]]))
    if k == "bytes":
        return bytes.fromhex(op["data"])
    if k == "mangled":   # a perfectly valid datagram of the session made invalid
        if not c.open:
            return None
        what = op["what"]
        if what == "req":
            data = wire.tun_req(ch, c.rx, bytes.fromhex(op["cemi"]))
        elif what == "ack":
            data = wire.tun_ack(ch, c.local_seq, 0)
        elif what == "connect":
            data = wire.connect_res((ch + 1) & 0xFF, 0, *GW)
        else:
            data = wire.frame(wire.DISC_RES, bytes([ch, 0]))
        how = op["how"]
        if how == "version":
            return data[:1] + bytes([op["arg"]]) + data[2:]
        if how == "header":
            return bytes([op["arg"]]) + data[1:]
        if how == "service":
            return data[:2] + op["arg"].to_bytes(2, "big") + data[4:]
        if how == "short":
            return data[:op["arg"]]
    raise KeyError(k)
