"""The simulated kernel of the USB HID daemon: descriptors, TCP sockets, the hidraw device, select and poll.

The real daemon (compiled from the repository, its libc calls redirected by daemon_shim/shim.c) runs in a child
process in lock step: each of its system calls is a request answered here, at the simulated time of the event loop."""
import errno
import hashlib
import os
import select
import shutil
import signal
import struct
import subprocess
import tempfile

from . import clock, env

OPS = ("START SOCKET SETSOCKOPT BIND LISTEN ACCEPT OPEN CLOSE READ WRITE SELECT POLL FCNTL IOCTL SHUTDOWN GETSOCKOPT NAME SLEEP TIME "
       "EXITED UNSUPPORTED ALLOC").split()
NUM = {n: i for i, n in enumerate(OPS)}
HEAD = struct.Struct("=IIqqqq")
REPLY = struct.Struct("=qiI")
RENAME = ("read write send recv sendto recvfrom sendmsg recvmsg readv writev select pselect poll ppoll accept accept4 close open openat fcntl ioctl "
          "setsockopt getsockopt socket bind listen shutdown getpeername getsockname usleep sleep nanosleep clock_gettime gettimeofday time "
          "gethostbyname open64 openat64 fcntl64 malloc calloc realloc strdup").split()
# system interfaces which are not simulated: a daemon using them cannot be judged
FOREIGN = ("epoll_create epoll_create1 epoll_ctl epoll_wait fork vfork pthread_create aio_read io_submit io_uring_setup mmap sendfile splice pipe pipe2 "
           "eventfd timerfd_create signalfd fdopen dup dup2 dup3 connect sendmmsg recvmmsg setitimer alarm timer_create").split()
HANG = 20           # real seconds without a system call before the daemon counts as hung
DEVICE = "/dev/hidraw7"
PORT = 5555
MSG_DONTWAIT, MSG_PEEK, MSG_WAITALL = 0x40, 0x2, 0x100
O_NONBLOCK = 0o4000


class BuildError(Exception):
    pass


def build():
    """-> path of the daemon linked with the shim (cached by the content of its sources)"""
    src = os.path.join(env.REPO, "daemon", "usbhid.c")
    shim = os.path.join(env.VERIF, "daemon_shim", "shim.c")
    flags = ["-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern",
             "-U_FORTIFY_SOURCE", "-fno-builtin-printf"]
    h = hashlib.sha256(repr((flags, RENAME)).encode())
    folder = os.path.dirname(src)
    for p in [shim] + sorted(os.path.join(folder, f) for f in os.listdir(folder) if f.endswith((".c", ".h"))):
        h.update(os.path.basename(p).encode())
        h.update(open(p, "rb").read())
    base = os.path.join(env.VERIF, "build")
    out = os.path.join(base, "daemon-" + h.hexdigest()[:16])
    exe = os.path.join(out, "daemon")
    if os.path.exists(exe):
        return exe
    os.makedirs(base, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=base)
    try:
        names = os.path.join(tmp, "names")
        with open(names, "w") as f:
            for n in RENAME:
                f.write("%s sim_%s\n" % (n, n))
        sources = [src] + [os.path.join(folder, f) for f in other_sources(folder)]
        objs = []
        for s in sources:
            o = os.path.join(tmp, os.path.basename(s) + ".o")
            run(["gcc"] + flags + ["-Dmain=daemon_main", "-c", s, "-o", o])
            run(["objcopy", "--redefine-syms=" + names, o])
            objs.append(o)
            used = run(["nm", "-u", o]).split()
            foreign = sorted(set(used) & set(FOREIGN))
            if foreign:
                raise BuildError("the daemon uses system interfaces the simulation does not have: %s" % foreign)
        run(["gcc"] + flags + [shim] + objs + ["-o", os.path.join(tmp, "daemon")])
        for old in os.listdir(base):
            if old.startswith("daemon-"):
                shutil.rmtree(os.path.join(base, old), ignore_errors=True)
        os.rename(tmp, out)
    except OSError:
        if not os.path.exists(exe):
            raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def other_sources(folder):
    """further C files the Makefile links into the daemon"""
    make = os.path.join(folder, "Makefile")
    text = open(make).read() if os.path.exists(make) else ""
    return sorted(f for f in os.listdir(folder) if f.endswith(".c") and f != "usbhid.c" and f[:-2] in text)


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p.stdout


class Driver:
    """the fork server of one worker process"""
    current = {}

    def __init__(self, slot):
        self.slot = slot
        exe = build()
        self.owner = os.getpid()
        req_r, req_w = os.pipe()
        rep_r, rep_w = os.pipe()
        self.err = tempfile.TemporaryFile()
        envir = dict(PATH="/usr/bin:/bin", ASAN_OPTIONS="detect_leaks=0:exitcode=77:handle_abort=1:malloc_fill_byte=165:max_malloc_fill_size=65536:abort_on_error=0",
                     UBSAN_OPTIONS="exitcode=77:print_stacktrace=0")
        null = os.open("/dev/null", os.O_RDWR)
        pid = os.fork()
        if pid == 0:
            try:
                os.dup2(null, 0)
                os.dup2(null, 1)
                os.dup2(self.err.fileno(), 2)
                a, b = os.dup(rep_r), os.dup(req_w)
                os.dup2(a, 200)
                os.dup2(b, 201)
                os.closerange(3, 200)
                os.closerange(202, 1024)
                signal.signal(signal.SIGPIPE, signal.SIG_DFL)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                os.execve(exe, ["daemon"], envir)
            except BaseException:
                pass
            os._exit(127)
        os.close(req_w)
        os.close(rep_r)
        os.close(null)
        self.pid, self.rd, self.wr = pid, req_r, rep_w
        self.buf = b""

    @classmethod
    def get(cls, slot=0):
        d = cls.current.get(slot)
        if d is None or d.owner != os.getpid():
            d = cls.current[slot] = cls(slot)
        return d

    def start(self, args):
        self.err.seek(0, 2)
        if self.err.tell() > 1 << 22:
            self.err.truncate(0)
        self.mark = self.err.seek(0, 2)
        text = b"".join(a.encode() + b"\0" for a in args)
        os.write(self.wr, bytes([len(text), 0]) + text)

    def recv(self):
        """-> (op, args, data), or None if nothing comes"""
        while True:
            if len(self.buf) >= HEAD.size:
                op, n, a, b, c, d = HEAD.unpack_from(self.buf)
                if len(self.buf) >= HEAD.size + n:
                    data = self.buf[HEAD.size:HEAD.size + n]
                    self.buf = self.buf[HEAD.size + n:]
                    return OPS[op], (a, b, c, d), data
            if not select.select([self.rd], [], [], HANG)[0]:
                return None
            more = os.read(self.rd, 1 << 17)
            if not more:
                Driver.current.pop(self.slot, None)
                raise RuntimeError("the driver of the daemon is gone")
            self.buf += more

    def reply(self, ret, err=0, data=b""):
        os.write(self.wr, REPLY.pack(ret, err, len(data)) + data)

    def stderr(self):
        self.err.seek(self.mark)
        return self.err.read().decode("latin1")


class Listener:
    def __init__(self):
        self.port = None
        self.listening = self.reuse = False
        self.backlog = []
        self.nonblock = False
        self.faults = []          # [errno, consume]

    def readable(self):
        return self.listening and bool(self.backlog)

    def writable(self):
        return False


class Hid:
    def __init__(self):
        self.reports = []
        self.nonblock = False
        self.lost = False         # unplugged

    def readable(self):
        return bool(self.reports) or self.lost

    def writable(self):
        return True


class Conn:
    """the daemon's end of a TCP connection; the client drives the methods in lower half"""

    def __init__(self, kernel, client):
        self.k, self.client = kernel, client
        self.inbuf = b""
        self.fin = False          # end of the incoming stream has arrived
        self.done = False         # and was, or the connection was reset
        self.err = 0
        self.dead = False         # reset: nothing more can be sent
        self.gone = False         # the client has closed its socket: what arrives there is answered by a reset
        self.cap = None           # room for bytes the client has not read (None: it reads at once)
        self.queued = b""
        self.full = False         # a send met too little room
        self.nonblock = False
        self.accepted = self.closed = False
        self.shut = False

    def readable(self):
        return bool(self.inbuf) or self.fin or self.dead or bool(self.err)

    def writable(self):
        return self.dead or bool(self.err) or self.shut or self.cap is None or len(self.queued) < self.cap

    # --- the client's side
    def feed(self, data):
        if not self.closed and not self.dead:
            self.inbuf += data
            self.k.kick()

    def close_from_client(self):
        self.gone = True
        self.half_close()

    def half_close(self):
        if not self.closed and not self.dead:
            self.fin = True
            self.k.kick()

    def reset(self):
        self.gone = True
        if not self.dead and not self.closed:
            self.err = errno.EPIPE if self.fin else errno.ECONNRESET
            self.dead = True
            self.k.kick()

    def drain(self, n):
        data, self.queued = self.queued[:n], self.queued[n:]
        if data:
            self.client.got(data)
            self.k.kick()


class Kernel:
    """host: on_accept(conn), on_read(conn, data), on_sent(conn, data), on_close(conn), on_report(data), on_hid_write(data),
    on_idle(), on_exit(what), now, call_later"""

    def __init__(self, host, eps=1e-6, fd_limit=128, rst_delay=1e-4, slot=0):
        self.slot = slot
        self.host, self.eps, self.fd_limit, self.rst_delay = host, eps, fd_limit, rst_delay
        self.fds = {}
        self.hid = None
        self.listener = None
        self.reports = []         # not opened yet: kept
        self.pending = None       # the system call which blocks
        self.running = False
        self.alive = False
        self.exit = None
        self.syscalls = 0
        self.idle_spins = 0
        self.timer = None
        self.scheduled = False
        self.counts = {}
        self.shorts = None        # callable: bytes a read returns of those available
        self.budget = 40000
        self.args = ["--dev-hidraw", DEVICE]
        self.device = DEVICE
        self.start_faults = {}    # name of a call: the error it always meets
        self.others = ()         # devices which are not the daemon's
        self.time_wait = False    # connections of an earlier process still hold the port
        self.code = None          # exit status

    # --- life
    def start(self):
        self.driver = Driver.get(self.slot)
        self.driver.start(self.args + (["\x01"] if "ALLOC" in self.start_faults else []))
        self.alive = True
        while True:
            q = self.driver.recv()
            if q is None:
                raise RuntimeError("the daemon does not start")
            if q[0] == "START":
                self.child = q[1][0]
                self.driver.reply(0)
                break
        self.pump()

    def finish(self):
        """end the daemon: at most one request is outstanding"""
        if self.alive:
            self.alive = False
            if self.pending is None:      # it computes: let it come to its next call, or its end
                self.pending = self.driver.recv()
                if self.pending is not None and self.pending[0] == "EXITED":
                    return
            try:
                os.kill(self.child, signal.SIGKILL)
            except ProcessLookupError:
                pass
            while True:
                q = self.driver.recv()
                if q is None or q[0] == "EXITED":
                    break
            self.driver.buf = b""

    def kick(self):
        """something changed: a blocked system call may go on"""
        if self.alive and not self.scheduled:
            self.scheduled = True
            self.host.call_later(0, self._kicked)

    def _kicked(self):
        self.scheduled = False
        if self.alive and self.pending is not None and not self.running:
            self.pump()

    def pump(self):
        """answer system calls until one blocks (each takes eps)"""
        if not self.alive or self.running:
            return
        self.running = True
        try:
            while self.alive:
                if self.pending is None:
                    q = self.driver.recv()
                    if q is None:
                        os.kill(self.child, signal.SIGKILL)
                        self.driver.recv()
                        self.over("hang", "the daemon computes without end (%d s)" % HANG)
                        return
                    if q[0] == "EXITED":
                        self.exited(q[1][0])
                        return
                    self.syscalls += 1
                    self.counts[q[0]] = self.counts.get(q[0], 0) + 1
                    if self.syscalls > self.budget:
                        self.pending = q
                        self.finish()
                        self.over("busy-loop", "more than %d system calls" % self.budget)
                        return
                    self.pending = q
                    self.deadline = None
                q = self.pending
                if q[0] in self.start_faults and not self.elsewhere(q):
                    ans = self.fail(self.start_faults[q[0]])
                    self.host.on_start_fault(q[0])
                else:
                    ans = getattr(self, "sys_" + q[0].lower())(*q[1], q[2])
                if ans is None:
                    t = self.timeout_of(q)
                    if t is None:
                        self.host.on_idle()
                        return
                    if self.deadline is None:
                        self.deadline = self.host.now() + t / 1e6
                        self.host.call_later(t / 1e6, self.timed_out, q)
                        self.host.on_idle(timed=True)
                        return
                    if self.host.now() + 1e-9 < self.deadline:
                        return
                    ans = self.expired(q)
                self.pending = None
                ret, err, data = (ans + (0, b""))[:3] if len(ans) < 3 else ans
                self.host.on_syscall(q[0], q[1], ret, err)
                self.driver.reply(ret, err, data)
                if self.eps:
                    self.host.call_later(self.eps, self._resume)
                    return
        finally:
            self.running = False

    def _resume(self):
        if self.alive and self.pending is None:
            self.pump()

    def timed_out(self, q):
        if self.pending is q:
            self.kick()

    def timeout_of(self, q):
        if q[0] in ("SELECT", "POLL"):
            return None if q[1][1] < 0 else q[1][1]
        if q[0] == "SLEEP":
            return q[1][0]
        return None

    def expired(self, q):
        if q[0] == "SELECT":
            return 0, 0, b"\0" * 384
        if q[0] == "POLL":
            return 0, 0, b"".join(struct.pack("=ihh", *struct.unpack_from("=ih", q[2], i), 0) for i in range(0, len(q[2]), 8))
        return 0, 0, b""

    def exited(self, status):
        self.alive = False
        err = self.driver.stderr()
        if os.WIFSIGNALED(status):
            what = "the daemon was killed by %s" % signal.Signals(os.WTERMSIG(status)).name
            cls = "killed"
        else:
            code = self.code = os.WEXITSTATUS(status)
            cls, what = ("memory-error", "the daemon made an invalid memory access") if code == 77 else ("exit", "the daemon exited with %d" % code)
        for line in err.splitlines():
            if "SUMMARY:" in line or "runtime error:" in line:
                line = line.strip()
                what += ": " + (line[line.find("SUMMARY:"):] if "SUMMARY:" in line else line[line.rfind("/") + 1:])
                break
        else:
            tail = [x for x in err.splitlines() if not x.startswith("Server:")][-1:]
            what += " (%s)" % tail[0].strip() if tail else ""
        self.over(cls, what)

    def over(self, cls, what):
        self.alive = False
        self.exit = (cls, what)
        self.host.on_exit(cls, what)

    # --- helpers
    def new_fd(self, obj):
        fd = 3
        while fd in self.fds:
            fd += 1
        if fd >= self.fd_limit:
            return None
        self.fds[fd] = obj
        return fd

    def open_conns(self):
        return [o for o in self.fds.values() if isinstance(o, Conn)]

    @staticmethod
    def fail(e):
        return -1, e, b""

    def sys_alloc(self, a, b, c, d, data):
        return 0, 0, b""

    # --- system calls: -> (ret, errno, data), or None to block
    def sys_socket(self, domain, typ, proto, _, data):
        s = Listener()
        s.nonblock = bool(typ & O_NONBLOCK)
        fd = self.new_fd(s)
        return self.fail(errno.EMFILE) if fd is None else (fd, 0, b"")

    def sys_setsockopt(self, fd, level, name, _, data):
        o = self.fds.get(fd)
        if o is None:
            return self.fail(errno.EBADF)
        if (level, name) == (1, 2) and isinstance(o, Listener):
            o.reuse = any(data[:4])
        return 0, 0, b""

    def sys_getsockopt(self, fd, level, name, _, data):
        o = self.fds.get(fd)
        if o is None:
            return self.fail(errno.EBADF)
        e = 0
        if (level, name) == (1, 4) and isinstance(o, Conn):
            e, o.err = o.err, 0
        return 0, 0, struct.pack("=i", e)

    def elsewhere(self, q):
        """the port is taken and the device missing, but not every other one"""
        if q[0] == "BIND" and self.start_faults["BIND"] == errno.EADDRINUSE:
            return q[2][2:4] != struct.pack(">H", PORT)
        return q[0] == "OPEN" and q[2].decode("latin1") != self.device

    def sys_bind(self, fd, a, b, c, data):
        o = self.fds.get(fd)
        if not isinstance(o, Listener):
            return self.fail(errno.EBADF)
        port = struct.unpack_from(">H", data, 2)[0] if len(data) >= 4 else None
        if port == PORT and self.time_wait and not o.reuse:
            return self.fail(errno.EADDRINUSE)
        o.port = port
        return 0, 0, b""

    def sys_listen(self, fd, n, b, c, data):
        o = self.fds.get(fd)
        if not isinstance(o, Listener):
            return self.fail(errno.EBADF)
        o.listening = True
        if o.port == PORT:
            self.listener = o
        return 0, 0, b""

    def sys_accept(self, fd, flags, b, c, data):
        o = self.fds.get(fd)
        if not isinstance(o, Listener):
            return self.fail(errno.EBADF if o is None else errno.ENOTSOCK)
        if not o.listening:
            return self.fail(errno.EINVAL)
        if not o.backlog:
            return self.fail(errno.EAGAIN) if o.nonblock else None
        if o.faults:
            e, consume = o.faults.pop(0)
            self.host.on_accept_fault(e)
            if consume:
                self.host.on_aborted(o.backlog.pop(0))
            return self.fail(e)
        conn = o.backlog[0]
        new = self.new_fd(conn)
        if new is None:
            return self.fail(errno.EMFILE)
        o.backlog.pop(0)
        conn.accepted = True
        conn.fd = new
        conn.nonblock = bool(flags & O_NONBLOCK)
        self.host.on_accept(conn)
        return new, 0, struct.pack("=H", 2) + struct.pack(">H", 40000) + bytes([10, 0, 0, 7]) + b"\0" * 8

    def sys_open(self, flags, a, b, c, data):
        path = data.decode("latin1")
        if path != self.device and path not in self.others:
            return self.fail(errno.ENOENT)
        h = Hid()
        h.reports = self.reports if path == self.device else []
        h.nonblock = bool(flags & O_NONBLOCK)
        h.mode = flags & 3
        fd = self.new_fd(h)
        if fd is None:
            return self.fail(errno.EMFILE)
        if path == self.device:
            self.hid = h
        return fd, 0, b""

    def sys_close(self, fd, a, b, c, data):
        if 0 <= fd < 3:
            return 0, 0, b""
        o = self.fds.pop(fd, None)
        if o is None:
            return self.fail(errno.EBADF)
        if isinstance(o, Conn):
            o.closed = True
            self.host.on_close(o)
        if o is self.hid:
            self.hid = None
        if o is self.listener:
            self.listener = None
        return 0, 0, b""

    def sys_read(self, fd, flags, n, _, data):
        o = self.fds.get(fd)
        if o is None:
            return (0, 0, b"") if fd == 0 else self.fail(errno.EBADF)
        block = not (o.nonblock or flags & MSG_DONTWAIT)
        if isinstance(o, Hid):
            if o.mode == 1:
                return self.fail(errno.EBADF)
            if not o.reports and o.lost:
                self.host.on_device_error("read")
                return self.fail(errno.EIO)
            if not o.reports:
                return None if block else self.fail(errno.EAGAIN)
            r = o.reports.pop(0)
            out = r[:n]
            self.host.on_report(r, out)
            return len(out), 0, out
        if isinstance(o, Listener):
            return self.fail(errno.ENOTCONN)
        if o.inbuf:
            if n <= 0:
                return 0, 0, b""
            out = o.inbuf[:n]
            if flags & MSG_WAITALL and len(out) < n and not (o.fin or o.dead) and block:
                return None
            if not flags & MSG_PEEK:
                o.inbuf = o.inbuf[len(out):]
                self.host.on_read(o, out)
            return len(out), 0, out
        if n <= 0:
            return 0, 0, b""
        if o.fin:
            o.done = True
            return 0, 0, b""
        if o.err:
            e, o.err = o.err, 0
            o.done = True
            return self.fail(e)
        if o.dead:
            o.done = True
            return 0, 0, b""
        return None if block else self.fail(errno.EAGAIN)

    def sys_write(self, fd, flags, n, _, data):
        if fd in (1, 2):
            return n, 0, b""
        o = self.fds.get(fd)
        if o is None:
            return self.fail(errno.EBADF)
        if isinstance(o, Hid):
            if o.mode == 0:
                return self.fail(errno.EBADF)
            if o.lost:
                self.host.on_device_error("write")
                return self.fail(errno.ENODEV)
            self.host.on_hid_write(data)
            return n, 0, b""
        if isinstance(o, Listener):
            return self.fail(errno.EPIPE)
        block = not (o.nonblock or flags & MSG_DONTWAIT)
        if o.err:
            e, o.err = o.err, 0
            return self.fail(e)
        if o.dead or o.shut:
            return self.fail(errno.EPIPE)
        if o.gone:
            # the client's socket is closed: its kernel answers with a reset
            self.host.on_sent(o, data, False)
            self.host.call_later(self.rst_delay, o.reset)
            return n, 0, b""
        if o.cap is None:
            self.host.on_sent(o, data, True)
            return n, 0, b""
        room = o.cap - len(o.queued)
        left = len(data)          # of n, when a blocking send goes on
        if room < left:
            o.full = True
        if left and (room <= 0 or (block and room < left)):
            if not block:
                return self.fail(errno.EAGAIN)
            if room > 0:          # a blocking send goes on until everything is sent
                part = data[:room]
                o.queued += part
                self.host.on_sent(o, part, False)
                op, args, _ = self.pending
                self.pending = (op, args, data[room:])
            return None
        part = data[:room]
        o.queued += part
        self.host.on_sent(o, part, False)
        return (len(part) if not block else n), 0, b""

    def sys_select(self, nfds, us, _, __, data):
        r, w, e = data[:128], data[128:256], data[256:384]
        out = [bytearray(128), bytearray(128), bytearray(128)]
        count = 0
        if nfds < 0:
            return self.fail(errno.EINVAL)
        for fd in range(min(nfds, 1024)):
            i, bit = fd >> 3, 1 << (fd & 7)
            if not (r[i] | w[i] | e[i]) & bit:
                continue
            o = self.fds.get(fd)
            if o is None:
                if fd < 3:
                    continue
                return self.fail(errno.EBADF)
            if r[i] & bit and o.readable():
                out[0][i] |= bit
                count += 1
            if w[i] & bit and o.writable():
                out[1][i] |= bit
                count += 1
        if count or us == 0:
            return count, 0, bytes(out[0] + out[1] + out[2])
        return None

    def sys_poll(self, n, us, _, __, data):
        out = b""
        count = 0
        for i in range(0, len(data) - 7, 8):
            fd, ev = struct.unpack_from("=ih", data, i)
            re = 0
            if fd >= 0:
                o = self.fds.get(fd)
                if o is None:
                    re = 0x20 if fd > 2 else 0
                else:
                    if o.readable():
                        re |= 1 & ev
                        if getattr(o, "dead", False) or getattr(o, "lost", False):
                            re |= 0x18
                    if o.writable():
                        re |= 4 & ev
            count += bool(re)
            out += struct.pack("=ihh", fd, ev, re)
        if count or us == 0:
            return count, 0, out
        return None

    def sys_fcntl(self, fd, cmd, arg, _, data):
        o = self.fds.get(fd)
        if o is None:
            return self.fail(errno.EBADF) if fd > 2 else (0, 0, b"")
        if cmd == 3:
            return 2 | (O_NONBLOCK if o.nonblock else 0), 0, b""
        if cmd == 4:
            o.nonblock = bool(arg & O_NONBLOCK)
        return 0, 0, b""

    def sys_ioctl(self, fd, cmd, arg, _, data):
        o = self.fds.get(fd)
        if o is None:
            return self.fail(errno.EBADF)
        if cmd == 0x5421:         # FIONBIO
            o.nonblock = bool(arg)
        elif cmd == 0x541B:       # FIONREAD
            return 0, 0, struct.pack("=i", len(getattr(o, "inbuf", b"")))
        return 0, 0, b""

    def sys_shutdown(self, fd, how, _, __, data):
        o = self.fds.get(fd)
        if not isinstance(o, Conn):
            return self.fail(errno.EBADF if o is None else errno.ENOTSOCK)
        if how in (1, 2):
            o.shut = True
            self.host.on_close(o)
        if how in (0, 2):
            o.fin = True
        return 0, 0, b""

    def sys_name(self, fd, peer, _, __, data):
        o = self.fds.get(fd)
        if o is None:
            return self.fail(errno.EBADF)
        if isinstance(o, Conn) and peer and o.dead:
            return self.fail(errno.ENOTCONN)
        return 0, 0, struct.pack("=H", 2) + struct.pack(">H", 40000) + bytes([10, 0, 0, 7]) + b"\0" * 8

    def sys_sleep(self, us, _, __, ___, data):
        if us <= 0 or (self.deadline is not None and self.host.now() + 1e-9 >= self.deadline):
            return 0, 0, b""
        return None

    def sys_time(self, a, *_):
        return int((clock.wall() if a == 0 else clock.mono()) * 1e6), 0, b""

    # --- the outside
    def connect(self, client):
        """-> the daemon's end, or None (refused)"""
        if self.listener is None:
            return None
        c = Conn(self, client)
        self.listener.backlog.append(c)
        self.kick()
        return c

    def report(self, data):
        self.reports.append(data)
        self.kick()
