"""The check of each property: generator, world, budgets and what the evidence says about it."""
import copy

from . import tunnel_gen as tg
from .tunnel import TunnelWorld

CHECKS = {}
# cases of a quick run: about 15 s on 8 cores; a thorough run has 20 times as many, up to its time cap
QUICK = dict(C01=9000, C02=9000, C03=10000, C04=20000, C05=10000, C06=20000, C07=45000, C08=25000, C09=40000, C10=12000, C11=12000, C12=10000,
             C13=24000, C14=14000, C15=4000, C16=24000, C17=30000, C18=16000, C19=24000, C23=12000, C24=10000)

TUNNEL_REAL = ["knx_stack/client/knxnet_ip.py (Tunneling, start_tunneling, writer)", "all of knx_stack/decode and knx_stack/encode",
               "knx_stack/definition (tables, State)", "asyncio's BaseEventLoop, tasks, futures and timers"]
TUNNEL_STUB = ["clock, selector and UDP sockets of the event loop", "datagram network (drop, dup, delay, reorder)",
               "KNXnet/IP gateway (stop-and-wait with timeout and repetitions, restarts, refusals)", "KNX bus"]
TUNNEL_ASSUME = ["datagrams are not corrupted in transit", "a tunnelling request or ack received before any connection was accepted is left open",
                 "the repetition number 255 in a connection which has accepted no request yet is left open"]
TUNNEL_RULE = ("a case is a configuration (tables, gateway plan, latency), timed operations and fault directives drawn from VERIF_SEED, the property "
               "and its index; it is non-trivial if %s; distinct ones are counted by the hash of the recorded history with the times removed")


def run_tunnel(case):
    return TunnelWorld(case).run()


def seen(w):
    return [e for e in w.log if e[1] in ("tx", "app", "writer-done", "session", "wrote", "run-returned")]


def run_refuse(case):
    world = TunnelWorld if case["world"] == "refuse" else UsbWorld
    w = world(copy.deepcopy(case)).run()      # table operations change the configuration
    q = world(copy.deepcopy(dict(case, ops=[o for o in case["ops"] if o["op"] != "refuse"]))).run()
    a, b = seen(w), seen(q)
    if a != b:
        x = [p for p in zip(a + [None] * len(b), b + [None] * len(a)) if p[0] != p[1]][0]
        w.violations.append({"tags": ["C23"], "cls": "failed-call-changes-history", "t": (x[0] or x[1])[0],
                             "text": "with the failing calls the client did %s, without them %s" % x})
    else:
        w.probe("history equal with and without failing calls", getattr(w, "refusals", 0))
    return w


def run_noise(case):
    w = TunnelWorld(case).run()
    quiet = dict(case, ops=[o for o in case["ops"] if o["op"] != "raw"])
    q = TunnelWorld(quiet).run()

    a, b = seen(w), seen(q)
    if a != b:
        for i in range(max(len(a), len(b))):
            x = a[i] if i < len(a) else None
            y = b[i] if i < len(b) else None
            if x != y:
                break
        w.violations.append({"tags": ["C05"], "cls": "noise-changes-history", "t": (x or y)[0],
                             "text": "with the injected datagrams the client did %s, without them %s" % (x, y)})
    else:
        w.probe("history equal with and without noise", w.noise_ops)
    return w


def reg(p, **kw):
    kw.setdefault("quick", QUICK[p])
    kw.setdefault("thorough", QUICK[p] * 20)
    kw.setdefault("shrink", [("ops",), ("faults",), ("cfg", "msgs"), ("cfg", "gw", "plan")])
    kw.setdefault("simplify", tg.simplify)
    kw.setdefault("technique", "deterministic simulation with fault injection, seeded search, reference-model oracle")
    CHECKS[p] = kw


NOTE = ("Seeded search over schedules and fault sequences of the real client against a simulated gateway and network; every violation replays from its "
        "file. A clean run is evidence over the explored runs, not a proof. Trusts the reference model in dst/tunnel.py and dst/wire.py.")


def tunnel(p, gen, nontrivial, what, **kw):
    reg(p, gen=gen, run=kw.pop("run", run_tunnel), nontrivial=nontrivial, rule=TUNNEL_RULE % what, real=TUNNEL_REAL, stub=TUNNEL_STUB,
        assumptions=TUNNEL_ASSUME, note=NOTE, **kw)


tunnel("C01", tg.gen_in, lambda s: s["deliveries"] > 0, "at least one message was delivered")
tunnel("C02", tg.gen_in, lambda s: s["datagrams"] > 4, "the session carried datagrams beyond the handshake")
tunnel("C03", tg.gen_out, lambda s: s["requests"] > 0, "at least one tunnelling request was sent")
tunnel("C04", tg.gen_sessions, lambda s: s["probes"].get("session accepted", 0) > 0, "at least one session was accepted")
tunnel("C05", tg.gen_noise, lambda s: any(k.startswith("injected") for k in s["fired"]), "at least one datagram was injected", run=run_noise)
tunnel("C06", tg.gen_writer, lambda s: s["requests"] > 0, "the writer sent at least one request")

tunnel("C18", tg.gen_control, lambda s: any(k in s["probes"] for k in ("connection state request", "disconnect request")),
       "the application asked for the state or the end of the connection")

from .usb import UsbWorld, gen_usb

USB_REAL = ["knx_stack/client/usbhid.py (Client)", "all of knx_stack/decode and knx_stack/encode", "knx_stack/definition (tables, State)",
            "asyncio's BaseEventLoop, StreamReader, StreamWriter, tasks and timers"]
USB_STUB = ["clock, selector and TCP socket of the event loop", "the daemon's side of the stream (segmentation, delays, end of stream, reset)"]
USB_RULE = ("a case is a configuration (tables, messages), timed segments of the incoming stream and its end drawn from VERIF_SEED, the property and its "
            "index; it is non-trivial if %s; distinct ones are counted by the hash of the recorded history with the times removed")
USB_NOTE = ("Seeded search over segmentations, malformed lines and ends of the stream of the real client on a simulated loop. Trusts dst/wire.py and "
            "dst/usb.py. A clean run is evidence over the explored runs, not a proof.")
USB_ASSUME = ["TCP delivers bytes unchanged and in order", "lines with an odd number of digits whose even part is a whole frame, and lines cut inside the "
              "application data, are left open"]


def gen_c16(rng, prop, tier, i):
    return tg.gen_property(rng, prop, tier, i) if i % 3 else gen_usb(rng, prop, tier, i)


def run_c16(case):
    return UsbWorld(case).run() if case["world"] == "usb" else run_tunnel(case)


def run_usb(case):
    return UsbWorld(case).run()


def usb(p, nontrivial, what, **kw):
    reg(p, gen=gen_usb, run=run_usb, nontrivial=nontrivial, rule=USB_RULE % what, real=USB_REAL, stub=USB_STUB, assumptions=USB_ASSUME, note=USB_NOTE,
        shrink=[("ops",), ("cfg", "msgs")], **kw)


usb("C08", lambda s: s["deliveries"] > 0, "at least one message was delivered")
usb("C09", lambda s: s["lines_sent"] > 0, "at least one line was written")
usb("C19", lambda s: any(k.startswith(("connection ", "emi ")) for k in s["probes"]), "the interface reported on itself")
reg("C23", gen=tg.gen_refuse, run=run_refuse, nontrivial=lambda s: any(k.startswith("refused: ") for k in s["probes"]),
    rule="a quarter of the cases are runs of the USB HID world, the others of the tunnelling world, with calls which fail in between; " + TUNNEL_RULE %
    "at least one call failed; each case is run with and without them and the histories are compared", real=TUNNEL_REAL + USB_REAL[:1],
    stub=TUNNEL_STUB + USB_STUB[1:], assumptions=TUNNEL_ASSUME + USB_ASSUME, note=NOTE)
reg("C16", gen=gen_c16, run=run_c16, nontrivial=lambda s: s["deliveries"] > 0,
    rule="alternating cases of the tunnelling and the USB HID world whose traffic is mostly property services; " + TUNNEL_RULE %
    "at least one message was delivered", real=TUNNEL_REAL + USB_REAL[:1], stub=TUNNEL_STUB + USB_STUB[1:], assumptions=TUNNEL_ASSUME + USB_ASSUME,
    note=NOTE)

from .discovery import DiscoveryWorld, gen_discovery


def run_discovery(case):
    return DiscoveryWorld(case).run()


reg("C07", gen=gen_discovery, run=run_discovery, nontrivial=lambda s: s["reports"] > 0,
    shrink=[("ops",), ("faults",), ("cfg", "gateways")],
    rule="a case is a set of gateways, timed injections and fault directives drawn from VERIF_SEED, the property and its index, run with the functions of "
         "the module or with the module as a script; it is non-trivial if a gateway was reported; distinct ones are counted by the hash of the recorded "
         "history with the times removed",
    real=["knx_stack/client/knxnet_ip_discovery.py (Request, Listen, functions and script)", "knx_stack/decode/knxnet_ip and knx_stack/encode/knxnet_ip (core services)",
          "asyncio's BaseEventLoop, tasks and timers"],
    stub=["socket.socket", "clock, selector and UDP endpoints of the event loop", "multicast network and gateways"],
    assumptions=["datagrams are not corrupted in transit", "a search response cut before the end of its device information block is left open"],
    note="Seeded search over gateways, delays, losses, duplicates and injected datagrams. Trusts dst/wire.py and dst/discovery.py. A clean run is evidence "
         "over the explored runs, not a proof. One known finding (individual address) is listed in KNOWN_FINDINGS.txt.")

from . import tables

TABLE_REAL = ["knx_stack/definition (address, association and group object tables, State)", "all of knx_stack/decode and knx_stack/encode"]
reg("C13", gen=tables.gen_routing, run=tables.run_tables,
    nontrivial=lambda s: s.get("traffic", 0) > 0 or s.get("deliveries", 0) > 0,
    rule="half of the cases are histories of table operations interleaved with frames and requests on both media, a quarter each live tunnelling and USB HID "
         "clients whose tables change under the traffic, all drawn from VERIF_SEED, the property and the index; a case is non-trivial if something was routed; "
         "distinct ones are counted by the hash of the recorded history with the times removed",
    real=TABLE_REAL + ["knx_stack/client/knxnet_ip.py and knx_stack/client/usbhid.py (live cases)"], stub=TUNNEL_STUB + USB_STUB[1:],
    assumptions=["an ASAP is not associated twice with one address, an associated address is not removed from the address table", "a request is made only for "
                 "ASAPs which have an address"], note="Seeded search over histories of table operations and traffic against the model in dst/wire.py (LiveTables).")
reg("C17", gen=tables.gen_history, run=tables.run_tables,
    nontrivial=lambda s: s.get("table_operations", 0) > 0,
    rule="a case is a history of table operations (with full tables, unknown ASAPs and addresses, iterables failing halfway) interleaved with traffic on both "
         "media, drawn from VERIF_SEED, the property and the index; it is non-trivial if an operation was carried out; distinct ones are counted by the "
         "hash of the recorded history", real=TABLE_REAL, stub=["the callers: iterables of addresses which fail halfway"],
    assumptions=["an ASAP is not associated twice with one address, an associated address is not removed from the address table", "whether an explicitly added "
                 "address survives the end of its last association is left open"],
    note="Seeded search over histories with injected failures; the property has no time or concurrency of its own, the schedule is the order of operations "
         "and traffic. Checked against the model in dst/wire.py (LiveTables).")

from . import threads

reg("C14", gen=threads.gen_threads, run=threads.run_threads, nontrivial=lambda s: s.get("overlaps", 0) > 0,
    shrink=[("ops",)] + [("cfg", "threads", k, "items") for k in range(6)],
    rule="a case is a set of threads (receiver or sender of a State; the States share the tables), their calls and the steps at which another thread takes "
         "over, drawn from VERIF_SEED, the property and the index; steps are lines or byte code instructions of knx_stack; a case is non-trivial if a thread "
         "was preempted inside a call while another one was inside one; distinct ones are counted by the hash of the switches and results",
    real=["all of knx_stack/decode and knx_stack/encode", "knx_stack/definition (tables, State)", "Python threads"],
    stub=["the thread scheduler (one thread at a time, switches at the planned steps)", "locks created by knx_stack (none at present)"],
    assumptions=["the connection of a State is established before its threads start", "one receiving and one sending thread per State", "switches happen at "
                 "line or byte code boundaries, as in CPython"],
    note="Seeded search over preemption points; results are compared with those of each thread alone, tunnelling numbers with the acks which can have been "
         "processed at that point. A clean run is evidence over the explored schedules, not a proof.")

from . import daemon

DAEMON_RULE = ("a case is a set of clients (segments they send, when they connect, leave, reset, stop reading), reports of the device, accept errors and the "
               "duration of a system call, drawn from VERIF_SEED, the property and the index; it is non-trivial if %s; distinct ones are counted by the "
               "hash of the recorded history (system calls included) with the times removed")
for _p, _f, _what in (("C10", lambda s: s["reports"] > 0 and s["clients"] > 1, "a report was read with a client connected"),
                      ("C11", lambda s: s["hid_writes"] > 0, "a packet was written to the device"),
                      ("C12", lambda s: sum(s["fired"].values()) > 0 or s["probes"].get("more than 64 clients", 0) > 0, "a client misbehaved")):
    reg(_p, gen=daemon.gen_daemon, run=daemon.run_daemon, setup=daemon.setup, nontrivial=_f, shrink=[("ops",)],
        rule=DAEMON_RULE % _what, real=["daemon/usbhid.c, compiled with the address and undefined behaviour sanitizers"],
        stub=["the kernel: descriptors, TCP sockets, select and poll, the hidraw device (libc calls redirected at link time)", "the clients"],
        assumptions=["the device itself does not fail (the daemon exits when it is unplugged)", "a carriage return not followed by a newline is left open",
                     "a client whose receive buffer was full may be dropped"],
        note="Seeded search over schedules and faults of the real daemon on a simulated kernel, system call by system call. Trusts the kernel model in "
             "dst/kernel.py. A clean run is evidence over the explored runs, not a proof.")

reg("C24", gen=daemon.gen_life, run=daemon.run_life, setup=daemon.setup, nontrivial=lambda s: s["failures"] > 0 or s["restarts"] > 0, shrink=[("ops",)],
    rule="a case is one to four processes of the daemon one after the other (their arguments, the call which fails at the start, how and when they end), the "
         "clients and reports of each, drawn from VERIF_SEED, the property and the index; it is non-trivial if a process could not start, lost its device or was "
         "started after another one; distinct ones are counted by the hash of the recorded history (system calls included) with the times removed",
    real=["daemon/usbhid.c, compiled with the address and undefined behaviour sanitizers"],
    stub=["the kernel: descriptors, TCP sockets, select and poll, the hidraw device (libc calls redirected at link time)", "the clients"],
    assumptions=["a call which fails at the start goes on failing", "a lost device gives its queued reports, then EIO; writes fail with ENODEV",
                 "the options --port and --host, which are ignored, are left open"],
    note="Seeded search over failing calls, losses of the device and restarts of the real daemon on a simulated kernel. Trusts the kernel model in dst/kernel.py. "
         "A clean run is evidence over the explored runs, not a proof.")

from . import e2e

reg("C15", gen=e2e.gen_e2e, run=e2e.run_e2e, setup=daemon.setup, nontrivial=lambda s: s["deliveries"] > 0 and s["frames_on_bus"] > 0,
    shrink=[("ops",), ("faults",)],
    rule="a case is an installation (nodes, their tables and interfaces), its gateway, network and daemons, timed starts, crashes, restarts, frames of plain "
         "devices and fault directives drawn from VERIF_SEED, the property and the index; it is non-trivial if a frame of the bus was delivered; distinct ones "
         "are counted by the hash of the recorded history with the times removed",
    real=TUNNEL_REAL + USB_REAL[:1] + ["daemon/usbhid.c, compiled with the address and undefined behaviour sanitizers"],
    stub=["the bus, plain devices and USB interfaces", "the KNXnet/IP gateway", "the datagram network, TCP streams and the kernel of the daemon",
          "clock, selector and sockets of the event loop"],
    assumptions=TUNNEL_ASSUME[:1] + ["a USB interface confirms a frame to all clients of its daemon", "a frame whose acknowledgement the gateway did not get may "
                 "be delivered or not", "the USB HID daemon reads all reports of its device"],
    note="Seeded search over installations, schedules and faults, end to end. Trusts the bus and gateway in dst/e2e.py and dst/gateway.py and the kernel model "
         "in dst/kernel.py. A clean run is evidence over the explored runs, not a proof.")
