"""A KNXnet/IP tunnelling server after the specification: stop-and-wait with one second
timeout and a configured number of repetitions in either direction of each connection."""
from . import wire


class Conn:
    def __init__(self, channel, control, data, serial):
        self.channel, self.control, self.data_ep, self.serial = channel, control, data, serial
        self.rx = 0           # next expected request number
        self.tx = 0
        self.queue = []       # [(frame id, cemi)]
        self.pending = None   # [frame id, cemi, seq, tries, timer, datagrams]
        self.acked = []       # frame ids acknowledged by the client, in order
        self.sent = []        # frame ids in sending order
        self.open = True
        self.why = None
        self.accepted = []    # (time, cemi) accepted requests
        self.reject = []      # statuses for the next requests
        self.history = []


class Gateway:
    """cfg: plan [{status, channel, delay, form}], dup same|refuse, retries, timeout, con, cstate"""

    def __init__(self, cfg, loop, net, addr, bus=None):
        self.cfg, self.loop, self.net, self.addr = cfg, loop, net, addr
        self.bus = bus            # callable(conn, cemi): a frame accepted from a connection
        self.conns = []
        self.attempts = 0
        self.up = True
        self.serial = 0
        self.frames = 0
        self.con_count = 0
        net.endpoints[addr] = self

    def restart(self, down):
        for c in self.conns:
            self.close(c, "restart")
        self.up = False
        self.loop.call_later(down, self._back)

    def _back(self):
        self.up = True

    def active(self):
        return [c for c in self.conns if c.open]

    def by_channel(self, ch):
        for c in self.conns:
            if c.open and c.channel == ch:
                return c
        return None

    def close(self, c, why):
        if c.open:
            c.open, c.why = False, why
            if c.pending:
                c.pending[4].cancel()
                c.pending = None
            c.queue[:] = []

    # --- receiving
    def deliver(self, data, src):
        if not self.up:
            return
        p = wire.parse(data)
        if p is None or not wire.total_length_ok(data):
            return
        service, b = p
        try:
            if service == wire.CONNECT_REQ:
                self._connect(b, src)
            elif service == wire.CSTATE_REQ:
                self._cstate(b)
            elif service == wire.DISC_REQ:
                c = self.by_channel(b[0])
                self.send(src, wire.frame(wire.DISC_RES, bytes([b[0], 0 if c else 0x21])))
                if c:
                    self.close(c, "client")
            elif service == wire.TUN_REQ:
                self._request(b, src)
            elif service == wire.TUN_ACK:
                self._ack(b)
        except IndexError:
            pass

    def send(self, addr, data, meta=None):
        return self.net.transmit(self.addr, addr, data, meta)

    @staticmethod
    def _hpai(b):
        return (".".join(str(x) for x in b[2:6]), (b[6] << 8) | b[7])

    def _connect(self, b, src):
        if len(b) < 20 or b[0] != 8 or b[8] != 8 or b[16] != 4 or b[17] != 4:
            return
        control, data = self._hpai(b), self._hpai(b[8:])
        for c in self.conns:
            if c.open and c.control == control:  # a repeated connect request
                if self.cfg.get("dup", "same") == "same":
                    self.send(control, wire.connect_res(c.channel, 0, *self.addr), ("connect", c.serial))
                else:
                    self.send(control, wire.connect_res(0, 0x24, *self.addr), ("connect", None))
                return
        plan = self.cfg["plan"]
        p = plan[min(self.attempts, len(plan) - 1)]
        self.attempts += 1
        self.loop.call_later(p.get("delay", 0.0), self._answer, p, control, data)

    def _answer(self, p, control, data):
        if not self.up:
            return
        if p["status"] or self.by_channel(p["channel"]):
            status = p["status"] or 0x24
            if p.get("form") == "long":
                res = wire.connect_res_refused_long(status, *self.addr)
            else:
                res = wire.connect_res(0, status, *self.addr)
            self.send(control, res, ("connect", None))
            return
        self.serial += 1
        c = Conn(p["channel"], control, data, self.serial)
        self.conns.append(c)
        self.send(control, wire.connect_res(c.channel, 0, *self.addr), ("connect", c.serial))

    def _cstate(self, b):
        c = self.by_channel(b[0])
        self.send(self._hpai(b[2:]), wire.frame(wire.CSTATE_RES, bytes([b[0], 0 if c else 0x21])))

    def _request(self, b, src):
        c = self.by_channel(b[1])
        if b[0] != 4 or c is None:
            return
        seq, cemi = b[2], b[4:]
        if seq == c.rx:
            if c.reject:
                self.send(c.data_ep, wire.tun_ack(c.channel, seq, c.reject.pop(0)), ("nack", seq))
                return
            c.rx = (c.rx + 1) & 0xFF
            c.accepted.append((self.loop.now, cemi))
            self.send(c.data_ep, wire.tun_ack(c.channel, seq), ("ack", seq))
            if self.bus:
                self.bus(c, cemi)
        elif seq == (c.rx - 1) & 0xFF:
            self.send(c.data_ep, wire.tun_ack(c.channel, seq), ("ack", seq))

    def confirm(self, c, cemi):
        """the L_Data.con of a request, back to the connection it came from"""
        if len(cemi) < 10 or cemi[0] != wire.REQ:
            return None
        plan = self.cfg.get("constatus") or [0]
        status = plan[self.con_count % len(plan)]
        self.con_count += 1
        n = 2 + cemi[1]
        con = bytes([wire.CON]) + cemi[1:n] + bytes([(cemi[n] & 0xFE) | status]) + cemi[n + 1:]
        self.push(c, con)
        return con

    # --- sending
    def push(self, c, cemi):
        if not c.open:
            return None
        self.frames += 1
        c.queue.append((self.frames, cemi))
        self._next(c)
        return self.frames

    def _next(self, c):
        if c.pending or not c.queue or not c.open:
            return
        fid, cemi = c.queue.pop(0)
        c.sent.append(fid)
        c.pending = [fid, cemi, c.tx, 0, None, []]
        self._transmit(c)

    def _transmit(self, c):
        p = c.pending
        p[5].append(self.send(c.data_ep, wire.tun_req(c.channel, p[2], p[1]), ("frame", c.serial, p[0])))
        p[4] = self.loop.call_later(self.cfg.get("timeout", 1.0), self._timeout, c, p)

    def _timeout(self, c, p):
        if c.pending is not p or not c.open:
            return
        p[3] += 1
        if p[3] > self.cfg.get("retries", 1):
            datagrams = p[5]
            self.send(c.control, wire.frame(wire.DISC_REQ, bytes([c.channel, 0]) + wire.hpai(*self.addr)))
            self.close(c, "timeout")
            self.gave_up(c, p[0], p[2], datagrams)
            return
        self._transmit(c)

    def gave_up(self, c, fid, seq, datagrams):
        pass

    def _ack(self, b):
        c = self.by_channel(b[1])
        if c is None or b[0] != 4 or c.pending is None:
            return
        if b[2] == c.pending[2] and b[3] == 0:
            c.pending[4].cancel()
            c.acked.append(c.pending[0])
            c.pending = None
            c.tx = (c.tx + 1) & 0xFF
            self._next(c)
