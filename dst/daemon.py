"""World: the real USB HID daemon on the simulated kernel, its clients and its device (C10, C11, C12)."""
import errno

from .kernel import Driver, Kernel
from .simloop import Hang, get_new_loop
from .tunnel import World

MAX_CLIENTS = 64
HEX = b"0123456789abcdefABCDEF"
ACCEPT_ERRORS = {"ECONNABORTED": errno.ECONNABORTED, "EMFILE": errno.EMFILE, "ENFILE": errno.ENFILE, "EPROTO": errno.EPROTO, "ENOBUFS": errno.ENOBUFS}


def packet_of(line):
    """the packet a line stands for, or None"""
    if not line or len(line) % 2 or len(line) > 112 or any(c not in HEX for c in line):
        return None
    return bytes.fromhex(line.decode()).ljust(56, b"\0")


class Client:
    def __init__(self, world, n, cap):
        self.w, self.n = world, n
        self.received = b""
        self.excess = False
        self.left = False         # closed, half closed or reset by the client
        self.closed_by_daemon = False
        self.starts = None        # offsets in the report stream this client's stream may begin at
        self.bad = False
        self.consumed = b""
        self.tail = b""
        self.lines = []           # [packet, required]
        self.maybe = False
        self.conn = world.kernel.connect(self)
        self.at_connect = len(world.stream)
        if self.conn is not None:
            self.conn.cap = cap

    def healthy(self):
        c = self.conn
        return c is not None and c.accepted and not self.left and not self.excess and not c.full and not c.dead

    # called by the kernel
    def got(self, data):
        self.received += data


class DaemonWorld(World):
    def run(self):
        self.fired = {}
        self.loop = get_new_loop(None, max_steps=400000)
        self.begin()
        try:
            self.kernel.start()
            self.loop.run_to_end(1.0)
            if self.kernel.alive and self.kernel.listener is None:
                self.violate({"C10", "C11", "C12"}, "not-listening", "the daemon does not listen on port 5555")
            elif self.kernel.alive and self.kernel.hid is None:
                self.violate({"C10", "C11", "C12"}, "device-not-open", "the daemon did not open the device it was given")
            else:
                for op in sorted(self.case["ops"], key=lambda o: o["t"]):
                    self.loop.call_at(1.0 + op["t"], self.do, op)
                last = max([o["t"] for o in self.case["ops"]] + [0])
                self.loop.run_to_end(1.0 + last + 5)
                self.settle("after the last event")
                self.epilogue()
        except Hang as e:
            self.violate({"C12"}, "busy-loop", str(e))
        finally:
            self.kernel.finish()
            errors = list(self.loop.exceptions)
            self.loop.dispose()
        if errors:
            raise errors[0][2] or RuntimeError(errors[0][1])
        return self

    def begin(self):
        """a new process of the daemon, which nobody knows yet"""
        cfg = self.cfg
        self.stream = b""         # the lines of all reports read from the device
        self.line_starts = [0]
        self.clients = {}
        self.frontier = {()}      # possible assignments of the packets written so far: sorted ((client, lines written), ...)
        self.hid_writes = 0
        self.reports_read = 0
        self.to_read = 0
        self.ended = False
        self.idles = 0
        self.phase = "faults"
        self.kernel = Kernel(self, cfg.get("eps", 1e-6), 128, cfg.get("rst_delay", 1e-4))

    # --- the kernel's host
    def now(self):
        return self.loop.now

    def call_later(self, delay, fn, *args):
        if delay <= 0:
            self.loop.call_soon(fn, *args)
        else:
            self.loop.call_later(delay, fn, *args)

    def fire(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1

    def on_syscall(self, name, args, ret, err):
        if name in ("SELECT", "POLL"):
            self.event("sys", name, ret)
        else:
            self.event("sys", name, args[0], ret, err)

    def on_accept(self, conn):
        cl = conn.client
        others = len(self.kernel.open_conns()) - 1
        cl.excess = others >= MAX_CLIENTS
        if cl.excess:
            self.probe("more than 64 clients")
        elif others == MAX_CLIENTS - 1:
            self.probe("64 clients")
        cl.starts = [x for x in self.line_starts if x >= cl.at_connect]
        if cl.left:
            self.probe("accepted after the client left")

    def on_accept_fault(self, e):
        self.fire("accept: " + errno.errorcode[e])

    def on_aborted(self, conn):
        conn.client.left = True

    def on_start_fault(self, call):
        self.fire("start: %s fails" % call.lower())

    def on_device_error(self, call):
        self.fire("%s of the lost device" % call)

    def on_report(self, report, got):
        self.reports_read += 1
        self.event("report", report.hex())
        self.stream += report.hex().encode() + b"\n"
        self.line_starts.append(len(self.stream))

    def on_sent(self, conn, data, arrives):
        cl = conn.client
        if arrives:
            cl.received += data
        sent = getattr(cl, "sent", b"") + data
        cl.sent = sent
        if cl.starts is None or cl.bad:
            return
        keep = [x for x in cl.starts if self.stream.startswith(sent, x)]
        if not keep:
            cl.bad = True
            x = cl.starts[0]
            want = self.stream[x:]
            k = 0
            while k < min(len(want), len(sent)) and want[k] == sent[k]:
                k += 1
            k = sent.rfind(b"\n", 0, k) + 1
            tags = {"C10"}
            if self.phase != "faults":
                tags.add("C12")
            self.violate(tags, "wrong-line", "client %d was sent %r where %r was due" % (cl.n, sent[k:k + 120], want[k:k + 120]))
        cl.starts = keep

    def on_read(self, conn, data):
        cl = conn.client
        self.event("consumed", cl.n, data.hex())
        cl.consumed += data
        cl.tail += data
        while True:
            i = min([k for k in (cl.tail.find(b"\n"), cl.tail.find(b"\r")) if k >= 0], default=-1)
            if cl.maybe and cl.tail[:1] == b"\n":
                cl.maybe = False
                if cl.lines and not cl.lines[-1][1] and cl.maybe_line:
                    cl.lines[-1][1] = True
                cl.tail = cl.tail[1:]
                continue
            if i < 0:
                break
            line, end, cl.tail = cl.tail[:i], cl.tail[i:i + 1], cl.tail[i + 1:]
            p = packet_of(line)
            cl.maybe, cl.maybe_line = end == b"\r", p is not None
            if p is not None:
                cl.lines.append([p, end == b"\n"])
            elif line:
                self.probe("malformed line" if len(line) < 512 else "overlong line")
        if not cl.tail:
            return
        self.probe("line cut by the end of a read")

    def on_hid_write(self, data):
        self.hid_writes += 1
        self.event("hid", data.hex())
        new = set()
        for state in self.frontier:
            done = dict(state)
            for n, cl in self.clients.items():
                k = done.get(n, 0)
                # a line whose end is only maybe one may have been skipped
                if k < len(cl.lines) and cl.lines[k][0] == data:
                    d = dict(done)
                    d[n] = k + 1
                    new.add(tuple(sorted(d.items())))
            if len(new) > 200:
                break
        if not new:
            tags = {"C11"} | ({"C12"} if self.phase != "faults" else set())
            due = [(n, cl.lines[dict(s).get(n, 0)][0].hex()) for s in list(self.frontier)[:1] for n, cl in self.clients.items()
                   if dict(s).get(n, 0) < len(cl.lines)]
            self.violate(tags, "wrong-packet", "written to the device: %s; due were (client, packet): %s" % (data.hex(), due[:3]))
            return
        self.frontier = new

    def on_close(self, conn):
        cl = conn.client
        if cl.closed_by_daemon:
            return
        cl.closed_by_daemon = True
        self.event("closed", cl.n)
        if cl.healthy():
            tags = {"C10", "C11", "C12"}
            self.violate(tags, "client-dropped", "client %d, connected and reading, was disconnected by the daemon" % cl.n)
        elif conn.full and not cl.left:
            self.probe("slow client dropped")

    def on_idle(self, timed=False):
        """the daemon waits and nothing it waits for is ready"""
        self.idles += 1
        if not timed and not self.ended and self.kernel.pending[0] in ("SELECT", "POLL"):
            self.complete("when idle", {"C12"} if self.phase != "faults" else set())

    def on_exit(self, cls, what):
        self.event("exit", cls)
        self.violate({"C10", "C11", "C12"}, cls, what)

    # --- obligations
    def has_all(self, cl):
        return cl.starts is None or cl.bad or any(len(getattr(cl, "sent", b"")) == len(self.stream) - x for x in cl.starts)

    def unwritten(self):
        """packets due to the device: of the assignment which explains most"""
        best = None
        for state in self.frontier:
            done = dict(state)
            left = [(n, p.hex()) for n, cl in self.clients.items() for p, req in cl.lines[done.get(n, 0):] if req]
            if best is None or len(left) < len(best):
                best = left
        return best or []

    def complete(self, when, more=frozenset()):
        ok = True
        k = self.kernel
        for cl in self.clients.values():
            if cl.healthy() and not self.has_all(cl):
                cl.bad = ok = True
                self.violate({"C10"} | more, "report-not-sent", "%s: client %d was sent %r of %r" %
                             (when, cl.n, getattr(cl, "sent", b"")[-120:], self.stream[cl.starts[-1] if cl.starts else 0:][-240:]))
                ok = False
        left = self.unwritten()
        if left:
            self.violate({"C11"} | more, "line-not-written", "%s: not written to the device: %s" % (when, left[:3]))
            ok = False
            self.ended = True
        for cl in self.clients.values():
            if cl.conn is not None and cl.conn.accepted and cl.conn.inbuf and cl.healthy() and not cl.bad:
                cl.bad = True
                ok = False
                self.violate({"C11", "C12"}, "input-ignored", "%s: %d bytes client %d sent are not read" % (when, len(cl.conn.inbuf), cl.n))
        if k.reports and not self.ended:
            ok = False
            self.ended = True
            self.violate({"C10", "C12"}, "report-ignored", "%s: %d reports of the device are not read" % (when, len(k.reports)))
        if k.listener is not None and k.listener.backlog and len(k.open_conns()) < MAX_CLIENTS and not self.ended:
            ok = False
            self.ended = True
            self.violate({"C12"}, "not-accepted", "%s: %d clients wait to be accepted, %d are connected" %
                         (when, len(k.listener.backlog), len(k.open_conns())))
        return ok

    def settle(self, when):
        """at the end of a phase: everything due is done, whatever the daemon waits for"""
        k = self.kernel
        if not k.alive or self.violations:
            return
        p = k.pending
        if p is not None and p[0] not in ("SELECT", "POLL", "SLEEP") and self.due():
            self.violate({"C12"}, "blocked", "%s the daemon is blocked in %s(%d), others wait" % (when, p[0].lower(), p[1][0]))
            return
        self.complete(when)
        if self.violations:
            return
        dead = [c.client.n for c in k.open_conns() if (c.fin or c.dead) and not c.client.excess]
        if dead:
            self.violate({"C12"}, "not-released", "%s the connections of %d clients which are gone are still open: %s" % (when, len(dead), dead[:5]))

    def due(self):
        k = self.kernel
        return (k.reports or self.unwritten() or (k.listener is not None and k.listener.backlog and len(k.open_conns()) < MAX_CLIENTS) or
                any(o.readable() for o in k.open_conns()) or any(cl.healthy() and not self.has_all(cl) for cl in self.clients.values()))

    def epilogue(self):
        """faults have stopped: a new client, the connected ones and the device are served"""
        k = self.kernel
        if not k.alive or self.violations:
            return
        self.phase = "after"
        if k.listener is not None:
            k.listener.faults[:] = []
        busy = k.open_conns()
        if len(busy) >= MAX_CLIENTS:
            for c in busy[:len(busy) - MAX_CLIENTS + 1 + len(busy) % 3]:
                c.client.left = True
                c.close_from_client()
            self.loop.run_to_end(self.loop.now + 1)
            if not k.alive or self.violations:
                return
        excess = any(c.client.excess for c in k.open_conns())
        fresh = self.clients[9999] = Client(self, 9999, None)
        self.loop.run_to_end(self.loop.now + 1)
        if k.alive and not self.violations and not excess:
            if not fresh.conn.accepted or fresh.closed_by_daemon:
                self.violate({"C12"}, "new-client-refused", "with %d clients connected a new one is not served" % (len(k.open_conns())))
                return
        report = bytes(range(56))
        k.report(report)
        self.loop.run_to_end(self.loop.now + 1)
        senders = [cl for cl in self.clients.values() if cl.healthy()]
        for i, cl in enumerate(senders):
            # an unfinished line may be there: it ends first
            cl.conn.feed((b"\n" if cl.consumed and cl.consumed[-1:] != b"\n" else b"") + b"fee1%04x%s\n" % (i, b"ab" * (i % 50)))
        self.loop.run_to_end(self.loop.now + 1)
        k.report(report[::-1])
        self.loop.run_to_end(self.loop.now + 5)
        if not k.alive or self.violations:
            return
        p = k.pending
        if p is not None and p[0] not in ("SELECT", "POLL", "SLEEP") and self.due():
            self.violate({"C12"}, "blocked", "after the faults the daemon is blocked in %s(%d)" % (p[0].lower(), p[1][0]))
            return
        self.complete("after the faults", {"C12"})
        if not self.violations:
            self.probe("served after the faults")

    # --- the clients and the device
    def do(self, op):
        k = self.kernel
        if not k.alive:
            return
        o = op["op"]
        if o == "report":
            k.report(bytes.fromhex(op["data"]))
            self.event("device", op["data"])
            return
        if o == "accept_fault":
            if k.listener is not None:
                k.listener.faults.append([ACCEPT_ERRORS[op["err"]], op["err"] in ("ECONNABORTED", "EPROTO")])
            return
        n = op["c"]
        cl = self.clients.get(n)
        if o == "connect":
            if cl is None:
                cl = Client(self, n, op.get("cap"))
                self.event("connect", n)
                if cl.conn is None:
                    self.violate({"C12"}, "not-listening", "a connection was refused")
                    return
                self.clients[n] = cl
            return
        if cl is None or cl.conn.closed:
            return
        self.event(o, n, op.get("data", op.get("n")))
        if o == "send":
            if not cl.left:
                cl.conn.feed(bytes.fromhex(op["data"]))
        elif o == "close":
            self.leave(cl, "client closed")
            cl.conn.close_from_client()
        elif o == "half":
            self.leave(cl, "client closed its half")
            cl.conn.half_close()
        elif o == "reset":
            self.leave(cl, "client reset")
            cl.conn.reset()
        elif o == "drain":
            cl.conn.drain(op["n"])

    def leave(self, cl, what):
        if not cl.left:
            self.fire(what)
            if not cl.conn.accepted:
                self.fire(what + " before it was accepted")
            if cl.conn.inbuf:
                self.probe("client left with unread input")
        cl.left = True

    def stats(self):
        return {"fired": self.fired, "probes": self.probes, "sim_s": self.loop.now, "reports": self.reports_read, "hid_writes": self.hid_writes,
                "clients": len(self.clients), "syscalls": self.kernel.syscalls, "idle_points": self.idles}


class LifeWorld(DaemonWorld):
    """C24: several processes of the daemon one after the other, which cannot start, are killed or lose the device"""
    SERVING = {"not-listening", "device-not-open", "exit", "killed", "memory-error", "hang", "busy-loop", "blocked", "new-client-refused", "not-accepted",
               "report-ignored", "input-ignored", "not-released"}

    def violate(self, tags, cls, text):
        if cls in self.SERVING or self.dying:
            tags = set(tags) | {"C24"}
        super().violate(tags, cls, "process %d: %s" % (self.n, text))

    def run(self):
        self.fired = {}
        self.loop = get_new_loop(None, max_steps=400000)
        self.kernel = self.dying = None
        self.n = 0
        self.failures = self.restarts = 0
        used = False              # connections of an earlier process still hold the port
        try:
            for self.n, life in enumerate(self.cfg["lives"]):
                self.dying = None
                self.begin()
                k = self.kernel
                k.args, k.device, k.time_wait = life["args"], life["device"], used
                k.others = ["/dev/hidraw%d" % x for x in range(20)]
                k.start_faults = {c: getattr(errno, e) for c, e in life.get("faults", {}).items()}
                self.event("start", life["args"], used)
                self.live(life)
                used = used or any(cl.conn is not None and cl.conn.accepted for cl in self.clients.values())
                k.finish()
                if self.violations:
                    break
        except Hang as e:
            self.violate({"C12"}, "busy-loop", str(e))
        finally:
            self.kernel.finish()
            errors = list(self.loop.exceptions)
            self.loop.dispose()
        if errors:
            raise errors[0][2] or RuntimeError(errors[0][1])
        return self

    def live(self, life):
        k, loop = self.kernel, self.loop
        start = loop.now
        if k.start_faults or life.get("help"):
            self.dying = "help" if life.get("help") else "start"
        k.start()
        loop.run_to_end(start + 1)
        if self.dying:
            loop.run_to_end(start + 60)
            if k.alive and k.listener is not None and k.hid is not None and set(k.start_faults) <= {"SETSOCKOPT", "ALLOC"}:
                self.dying = None     # it can do without
            elif k.alive:
                self.violate((), "runs-on", "%s, and the daemon runs on" % ("asked for help" if life.get("help") else "failing: %s" % life["faults"]))
                return
            else:
                return
        if k.alive and k.listener is None:
            self.violate((), "not-listening", "the daemon does not listen on port 5555")
            return
        if k.alive and k.hid is None:
            self.violate((), "device-not-open", "the daemon did not open the device %s it was given" % life["device"])
            return
        if self.kernel.time_wait:
            self.restarts += 1
            self.probe("started while the port is in TIME_WAIT")
        end = life.get("end_t", 0.5)
        start = loop.now
        for op in sorted(self.case["ops"], key=lambda o: o["t"]):
            if op["life"] == self.n and (life["end"] is None or op["t"] < end + 0.1):
                loop.call_at(start + op["t"], self.do_of, self.n, op)
        if life["end"] is None:
            loop.run_to_end(start + 1)
            self.settle("after the last event")
            self.epilogue()
            return
        loop.run_to_end(start + end)
        if not k.alive:
            return
        if life["end"] == "kill":
            self.fire("daemon killed")
            return
        self.fire("device lost")
        if self.clients:
            self.fire("device lost with clients connected")
        self.dying = "device"
        self.event("unplug")
        if k.hid is not None:
            k.hid.lost = True
        k.kick()
        loop.run_to_end(start + end + 60)
        if k.alive:
            p = k.pending
            self.violate((), "runs-on", "the device is lost, and 60 s later the daemon still runs, in %s" % (p[0].lower() if p else "no system call"))

    def do_of(self, n, op):
        if n == self.n and not (self.dying and op["op"] == "report"):
            self.do(op)

    def complete(self, when, more=frozenset()):
        if self.dying:
            return True               # judged by the end
        return super().complete(when, more)

    def on_exit(self, cls, what):
        self.event("exit", cls, self.kernel.code)
        code = self.kernel.code
        if cls != "exit" or not self.dying:
            self.violate({"C10", "C11", "C12"}, cls, what)
            return
        if self.dying == "help":
            if code or self.kernel.counts.get("BIND") or self.kernel.counts.get("OPEN"):
                self.violate((), "help", "asked for help: %s, after %s" % (what, sorted(self.kernel.counts)))
            return
        if not code:
            self.violate((), "success", "the daemon ended with the status of a success: %s" % what)
        self.failures += 1
        for cl in self.clients.values():
            if cl.healthy() and not self.has_all(cl):
                self.violate((), "report-lost", "the daemon ended without relaying to client %d what it had read: %r" %
                             (cl.n, self.stream[cl.starts[-1] if cl.starts else 0:][-240:]))
                return

    def stats(self):
        return dict(super().stats(), failures=self.failures, restarts=self.restarts, lives=self.n + 1)


# ------------------------------------------------------------------ cases
def gen_line(rng, used):
    """a valid line nobody else sends"""
    while True:
        n = rng.choice([56, 56, 56, 30, 19, rng.randint(1, 56), rng.randint(1, 56)])
        p = bytes(rng.randrange(256) for _ in range(n))
        if n == 56 and rng.random() < 0.5:
            p = bytes([1, 0x13]) + p[2:25] + bytes(31)
        key = p.ljust(56, b"\0")
        if key not in used:
            used.add(key)
            t = p.hex()
            r = rng.random()
            return (t.upper() if r < 0.15 else t).encode()


def gen_bad(rng, used):
    good = gen_line(rng, set())
    r = rng.randrange(9)
    if r == 0:
        return b""
    if r == 1:
        return good[:-1]
    if r == 2:
        return good.ljust(112, b"0") + b"00" * rng.choice([1, 1, 2, 10, 72, 143, 144])
    if r == 3:
        t = bytearray(good)
        t[rng.randrange(len(t))] = rng.choice(b"gG xX-+.,_\x00\xff\t\x7f")
        return bytes(t)
    if r == 4:
        return bytes(rng.choice([x for x in range(256) if x not in (10, 13)]) for _ in range(rng.randint(1, 120)))
    if r == 5:
        return b"0x" + good[:110]
    if r == 6:
        return rng.choice([b" ", b"hello", b"GET / HTTP/1.1", b"zz", b"0", b"-1", b"%n%n%s%s", b"  0113"])
    if r == 7:
        return good[:2] + b" " + good[2:]
    return good + b" "


def gen_overlong(rng):
    n = rng.choice([511, 512, 513, 600, 1023, 1024, 1025, 2000, 4096, 5000])
    unit = rng.choice([b"0", b"a1", b"\xff", b"z", b"0113"])
    return (unit * n)[:n]


def gen_daemon(rng, prop, tier, i):
    used = set()
    eps = rng.choice([1e-6, 1e-6, 1e-5, 0.0])
    cfg = dict(eps=eps, rst_delay=rng.choice([1e-4, 1e-6, 1e-2]))
    step = max(eps, 1e-6)
    ops = []
    bursts = rng.randint(2, 6)

    def when(b=None):
        b = rng.randrange(bursts) if b is None else b
        return 0.1 * b + (round(rng.randrange(60) * step / 2, 8) if rng.random() < 0.85 else round(rng.random() * 0.09, 6))
    r = rng.random()
    if prop == "C10":
        n = rng.choice([1, 2, 3, 4, 6, 10]) if r < 0.9 else rng.randint(55, 64)
        reports, lines, leave, slow = rng.choice([3, 8, 20]), rng.choice([0, 2, 6]), rng.choice([0.0, 0.3, 0.6]), rng.choice([0.0, 0.0, 0.3])
    elif prop == "C11":
        n = rng.choice([1, 1, 2, 3, 5, 8]) if r < 0.93 else rng.randint(40, 64)
        reports, lines, leave, slow = rng.choice([0, 2, 5]), rng.choice([2, 5, 12]), rng.choice([0.0, 0.3, 0.6]), rng.choice([0.0, 0.0, 0.2])
    else:
        n = rng.choice([1, 2, 4, 8]) if r < 0.72 else rng.randint(60, 80)
        reports, lines, leave, slow = rng.choice([0, 3, 8]), rng.choice([0, 2, 5]), rng.choice([0.2, 0.6, 0.9]), rng.choice([0.0, 0.2, 0.5])
    endless = prop in ("C10", "C11") and i % 80 == 57      # hundreds of reports or lines
    if endless:
        n = rng.choice([1, 2, 3])
        reports, lines = (rng.choice([130, 260, 400]), 3) if prop == "C10" else (rng.choice([0, 20]), rng.choice([150, 300]))
        bursts = 12
    many = n > 20
    junk = {"C10": 0.2, "C11": 0.3, "C12": 0.5}[prop]
    seen = set()
    d = None
    for _ in range(reports):
        last = d
        k = rng.choice([56, 56, 56, 56, 20, 1, rng.randint(1, 55)])
        while True:
            d = bytes(rng.randrange(256) for _ in range(k)) if rng.random() < 0.7 else bytes([1, 0x13, rng.randrange(256)]).ljust(56, b"\0")
            if d not in seen or len(seen) > 200:
                break
        seen.add(d)
        if last is not None and rng.random() < 0.12:
            d = last
        t = when()
        for _ in range(rng.choice([1, 1, 1, 3]) if not many else 1):
            ops.append({"t": t, "op": "report", "data": d.hex()})
            if rng.random() < 0.6:
                d = bytes(rng.randrange(256) for _ in range(56))
    for c in range(n):
        start = when(0) if rng.random() < 0.6 else when()
        conn = {"t": start, "op": "connect", "c": c}
        if rng.random() < slow:
            conn["cap"] = rng.choice([0, 1, 50, 113, 114, 226, 500, 2000])
        ops.append(conn)
        if many and rng.random() < 0.6:
            data = b""
        else:
            data = b""
            line = None
            for _ in range(rng.randint(0, lines) if prop != "C11" else max(1, rng.randint(0, lines))):
                x = rng.random()
                if x < junk:
                    data += gen_overlong(rng) if rng.random() < (0.3 if prop == "C12" else 0.1) else gen_bad(rng, used)
                else:
                    line = line if line and rng.random() < 0.12 else gen_line(rng, used)
                    data += line
                data += rng.choice([b"\n", b"\n", b"\n", b"\n", b"\r\n"])
        gone = rng.random() < leave
        end = None
        if gone and rng.random() < 0.6 and data:
            frag = gen_line(rng, used) if rng.random() < 0.7 else gen_overlong(rng)
            data += frag if rng.random() < 0.3 else frag[:rng.randint(1, len(frag))]
        t = start
        if data:
            cuts = sorted(set(rng.randrange(len(data)) for _ in range(rng.choice([0, 0, 1, 3, 8, 25]))) | {0}) + [len(data)]
            if rng.random() < 0.5:
                t = max(t, when())
            for a, b in zip(cuts, cuts[1:]):
                if b > a:
                    ops.append({"t": round(t, 8), "op": "send", "c": c, "data": data[a:b].hex()})
                    t += rng.choice([0.0, step / 2, step, 3 * step, 20 * step, 0.01])
        if gone:
            x = rng.random()
            end = t + step / 2 if x < 0.3 else max(t, when()) if x < 0.8 else t
            if prop == "C12" and rng.random() < 0.25:
                end = start + rng.choice([0.0, step / 2])
            ops.append({"t": round(end, 8), "op": rng.choice(["close", "close", "reset", "reset", "half"]), "c": c})
        if "cap" in conn and rng.random() < 0.5:
            for _ in range(rng.randint(1, 6)):
                ops.append({"t": round(when(), 8), "op": "drain", "c": c, "n": rng.choice([1, 10, 113, 1000])})
    if prop == "C12" or rng.random() < 0.15:
        for _ in range(rng.choice([0, 1, 2, 4])):
            ops.append({"t": when(), "op": "accept_fault", "err": rng.choice(sorted(ACCEPT_ERRORS))})
    if many and rng.random() < 0.7:
        # places are released and taken again
        t = 0.1 * bursts
        gone = rng.sample(range(n), rng.randint(1, min(n, 12)))
        for c in gone:
            ops.append({"t": round(t + rng.randrange(40) * step / 2, 8), "op": rng.choice(["close", "reset"]), "c": c})
        for c in range(n, n + rng.randint(1, 14)):
            ops.append({"t": round(t + rng.choice([0.0, 0.05]) + rng.randrange(40) * step / 2, 8), "op": "connect", "c": c})
        ops.append({"t": round(t + 0.08, 8), "op": "report", "data": bytes(rng.randrange(256) for _ in range(56)).hex()})
    ops.sort(key=lambda o: o["t"])
    if len(ops) > 1 and rng.random() < 0.2:      # nothing happens for a while
        for _ in range(rng.choice([1, 1, 2])):
            k, gap = rng.randrange(1, len(ops)), rng.choice([1.5, 6.0, 31.0, 61.0, 301.0, 3601.0, 90000.0])
            for o in ops[k:]:
                o["t"] = round(o["t"] + gap, 8)
    return dict(world="daemon", cfg=cfg, ops=ops, faults=[])


DEVICES = ["/dev/hidraw0", "/dev/hidraw1", "/dev/hidraw2", "/dev/hidraw12", "/dev/knx", "/dev/serial/by-id/usb-KNX_Interface-if00", "hidraw3", "/"]
START_FAULTS = [("SOCKET", ["EMFILE", "ENFILE", "ENOBUFS", "ENOMEM"]), ("SETSOCKOPT", ["ENOMEM", "ENOPROTOOPT"]), ("BIND", ["EADDRINUSE", "EACCES"]),
                ("LISTEN", ["EADDRINUSE"]), ("OPEN", ["ENOENT", "EACCES", "EIO", "EBUSY", "ENODEV"]),
                ("ALLOC", ["ENOMEM"])]


def gen_life(rng, prop, tier, i):
    """C24"""
    lives, ops = [], []
    n = rng.choice([1, 2, 2, 3, 4])
    base = gen_daemon(rng, rng.choice(["C10", "C11", "C12"]), tier, i)
    for x in range(n):
        d = rng.choice(DEVICES)
        args = rng.choice([["--dev-hidraw", d], ["--dev-hidraw=" + d], ["-d", d], ["-d" + d], ["-d", d], []])
        if not args:
            d = "/dev/hidraw1"
        life = dict(args=args, device=d, end=rng.choice(["kill", "unplug", "unplug", "unplug"]) if x < n - 1 or rng.random() < 0.5 else None)
        r = rng.random()
        if r < 0.25:
            call, errs = rng.choice(START_FAULTS)
            life["faults"] = {call: rng.choice(errs)}
        elif r < 0.3:
            life.update(args=rng.choice([["-h"], ["--help"], ["--dev-hidraw", d, "--help"], ["-h", "-d", d]]), help=True)
        if life["end"]:
            life["end_t"] = rng.choice([0.0, 0.01, round(rng.random() * 0.5, 6), round(0.1 * rng.randrange(5) + rng.randrange(60) * 1e-6, 8)])
        if r > 0.3:
            world = gen_daemon(rng, rng.choice(["C10", "C10", "C11"]) if life["end"] else "C12", tier, i)
            for o in world["ops"]:
                if o["t"] < life.get("end_t", 1.0) + 0.1 and (life["end"] is None or o["op"] != "accept_fault"):
                    ops.append(dict(o, life=x))
            for o in ops[-3:] if life["end"] else ():   # just before the end
                if o["life"] == x and o["op"] in ("report", "send"):
                    o["t"] = max(0.0, round(life["end_t"] - rng.choice([0.0, 1e-6, 5e-6, 1e-4]), 8))
        lives.append(life)
    return dict(world="life", cfg=dict(base["cfg"], lives=lives), ops=ops, faults=[])


def run_life(case):
    return LifeWorld(case).run()


def setup():
    from .kernel import build
    build()


def run_daemon(case):
    return DaemonWorld(case).run()
