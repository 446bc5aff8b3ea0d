"""World: table operations (with faults) interleaved with traffic in both directions on two media which share the tables."""
import copy

from . import gen, stack, tunnel_gen, usb, wire
from .tunnel import PROPS, TunnelWorld, World


class _Clock:
    now = 0.0


class TablesWorld(World):
    """one history of operations and traffic; the time is the number of the operation"""

    def run(self):
        cfg = copy.deepcopy(self.cfg)
        k = stack.ks()
        self.loop = _Clock()
        self.fired = {}
        self.node = stack.Node(cfg["node"], "ip", "n")
        self.ip = self.node.state
        self.node.medium = "usb"
        self.usb = self.node.new_state()
        self.model = self.node.model
        self.traffic = self.tableops = 0
        k.decode_msg(self.ip, k.knxnet_ip.Msg.make_from_str(wire.connect_res(7, 0, "10.0.0.1", 3671).hex()))
        self.ip.sequence_counter_remote = 0
        self.ip.sequence_counter_local = 0
        self.seq = self.local = 0
        self.failed = False      # the last table operation had to fail
        self.state("at the start")
        self.beginnings(sorted(set(cfg["pool"])))
        for n, op in enumerate(self.case["ops"]):
            self.loop.now = float(n)
            if op["op"] == "table":
                self.table(op)
            elif op["op"] == "frame":
                self.frame(op)
            else:
                self.request(op)
        return self

    def fire(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1

    def beginnings(self, pool):
        """a table filled from the start: as many addresses as there is room for, named once or more, and one more"""
        k = stack.ks()
        for room, named in ((len(pool), pool + pool[:2]), (len(pool) - 1, pool)):
            try:
                table = k.AddressTable(k.Address(self.model.ia), [stack.ga(x) for x in named], room)
            except Exception as e:
                if room == len(pool):
                    self.violate({"C17"}, "failed", "a table for %d with the addresses %s failed with %r" % (room, hexes(named), e))
                self.fire("more addresses than room from the start")
                continue
            if len({a.free_style for a in table.addresses}) > room:
                self.violate({"C17"}, "capacity", "a table for %d holds the addresses %s it was made with" % (room, hexes(pool)))

    # --- operations
    def table(self, op):
        before = self.snapshot()
        r = self.node.apply(op)
        if r is None:
            return
        refused, broken = r
        after = self.snapshot() if refused else None
        if refused and before != after:
            what = sorted(k for k in before if before[k] != after[k])[0]
            self.violate({"C17"}, "failed-and-changed", "the failed %s changed the %s from %s to %s" %
                         ({x: op[x] for x in op if x != "op"}, what, before[what], after[what]))
        self.event("table", op["do"], refused, repr(op.get("asap")), repr(op.get("groups", op.get("group"))))
        self.tableops += 1
        self.failed = refused
        if refused:
            self.fire("failing %s" % op["do"])
            if not broken:
                self.violate({"C17"}, "did-not-fail", "%s had to fail and did not" % (op,))
        elif broken:
            self.violate({"C17", "C13"}, "failed", "%s failed with %r" % (op, broken))
        else:
            self.probe("table operation done")
        if op.get("fail_at") is not None:
            self.fire("iterable failing halfway")
        self.state("after %s %s" % ("the failed" if refused else "the", {x: op[x] for x in op if x != "op"}))

    def snapshot(self):
        return stack.snapshot(self.node)

    def state(self, when):
        m = self.model
        at, ass = self.node.address_table, self.node.association_table
        try:
            have = [a.free_style for a in at.addresses]
            if sorted(have) != sorted(m.held):
                self.violate({"C17"}, "addresses", "%s the address table holds %s instead of %s" % (when, hexes(have), hexes(m.held)))
            if len(have) > m.max:
                self.violate({"C17"}, "capacity", "%s %d addresses are held, the capacity is %d" % (when, len(have), m.max))
            if len(have) == m.max:
                self.probe("address table full")
            if sorted(at.tsaps) != list(range(len(m.held) + 1)):
                self.violate({"C17"}, "tsaps", "%s the tsaps are %s" % (when, list(at.tsaps)))
            for g in sorted(m.held):
                t = at.get_tsap(stack.ga(g))
                if t is None or at.get_address(t).free_style != g:
                    self.violate({"C17"}, "tsap", "%s address 0x%04X has tsap %s" % (when, g, t))
            for g in self.cfg["pool"]:
                if g == m.ia and g not in m.held:
                    continue
                got = sorted(a.value for a in ass.get_asaps_from_address(stack.ga(g)) if a.value)
                if got != sorted(m.asaps_of(g)):
                    self.violate({"C17", "C13"}, "asaps", "%s address 0x%04X belongs to the ASAPs %s instead of %s" % (when, g, got, sorted(m.asaps_of(g))))
            used = {a for a, g in m.assoc if g}
            known = {a.value for a in ass.asaps}
            if not used <= known:
                self.violate({"C17"}, "known-asaps", "%s the ASAPs are %s" % (when, sorted(known)))
            for a in sorted(used):
                got = [x.free_style for x in ass.get_addresses(ass.get_tsaps(self.node.asap(a)))]
                if got != m.of(a):
                    self.violate({"C17", "C13"}, "addresses-of", "%s ASAP %d has the addresses %s instead of %s" % (when, a, hexes(got), hexes(m.of(a))))
            free = ass.get_free_asap_value()
            if not isinstance(free, int) or free < 0 or free in used or free == 0:
                self.violate({"C17"}, "free-asap", "%s the free ASAP value is %r, in use are 0 and %s" % (when, free, sorted(used)))
        except Exception as e:
            self.violate({"C17"}, "tables-broken", "%s the tables cannot be read: %r" % (when, e))

    # --- traffic
    def frame(self, op):
        k = stack.ks()
        c = bytes.fromhex(op["cemi"])
        want = wire.expected_messages(self.model, c)
        if want is None:
            return
        if op["medium"] == "ip":
            state, data = self.ip, wire.tun_req(7, self.seq, c)
            self.seq = (self.seq + 1) & 0xFF
        else:
            state, data = self.usb, wire.usb_report(c).ljust(56, b"\0")
        tags = {"C13"} | ({"C17"} if self.failed else set())
        try:
            result = k.decode_msg(state, (k.knxnet_ip.Msg if op["medium"] == "ip" else k.Msg).make_from_str(data.hex()))
            got = [m for m in (stack.plain(x, self.model) for x in stack.messages(result)) if m is not None]
            if op["medium"] == "ip":
                stack.ack(self.ip, result)
            self.keep(result, {"C13"})
        except Exception as e:
            if want:
                self.violate(tags, "not-delivered", "decoding %s for %s raised %r" % (c.hex(), want, e))
            return
        self.event("app", op["medium"], repr(sorted(got, key=repr)))
        if want:
            self.traffic += 1
            self.probe("delivery to %s ASAPs" % (len(want) if len(want) < 4 else "4 or more"))
        if not stack.same(want, got):
            self.violate(tags, "wrong-delivery", "the frame %s delivers %s instead of %s" % (c.hex(), got, want))

    def request(self, op):
        k = stack.ks()
        m = op["m"]
        if m["m"] not in PROPS:
            if self.model.first(m["asap"]) is None:
                return
            if m["m"] == "write" and m["asap"] not in self.model.dpts:
                return
            if m["m"] == "write":
                m = dict(m, value=m["value"] % (1 << (8 * wire.DPT_BYTES[self.model.dpts[m["asap"]]] or 1)))
        tags = {"C13"} | ({"C17"} if self.failed else set())
        if op.get("ind"):
            return self.indication(m, tags)
        try:
            octets = bytes.fromhex(str(k.encode_msg(self.ip if op["medium"] == "ip" else self.usb, self.node.message(m))))
        except Exception as e:
            self.violate(tags, "request-raises", "the request %s raised %r" % (m, e))
            return
        if op["medium"] == "ip":
            p = wire.parse(octets)
            c = p[1][4:] if p and p[0] == wire.TUN_REQ and wire.total_length_ok(octets) else None
        else:
            c = wire.parse_usb(octets)
        got = stack.request_content(c) if c else None
        want = stack.expected_request(self.model, m)
        self.event("request", op["medium"], repr(got))
        self.traffic += 1
        if got != want:
            self.violate(tags, "request-content", "the request %s is sent as %s instead of %s" % (m, got or octets.hex(), want))

    def indication(self, m, tags):
        """a USB interface made of the stack itself indicates a write"""
        k = stack.ks()
        want = stack.expected_request(self.model, m)
        try:
            msg = k.layer.application.a_group_value_write.ind.Msg(asap=self.node.asap(m["asap"]), dpt=self.node.message(m).dpt)
            octets = bytes.fromhex(str(k.encode_msg(self.usb, msg)))
        except Exception as e:
            self.violate(tags, "indication-raises", "the indication of %s raised %r" % (m, e))
            return
        c = wire.parse_usb(octets)
        got = stack.request_content(c, wire.IND) if c else None
        self.event("indication", repr(got))
        self.probe("indication encoded")
        if got != want:
            self.violate(tags, "indication-content", "the indication of %s is sent as %s instead of %s" % (m, got or octets.hex(), want))
            return
        self.traffic += 1
        self.frame({"medium": "usb", "cemi": c.hex()})

    def stats(self):
        return {"fired": self.fired, "probes": self.probes, "sim_s": 0.0, "traffic": self.traffic, "table_operations": self.tableops}


def hexes(xs):
    return "[%s]" % ", ".join("0x%04X" % x for x in xs)


ROUTING = {"wrong-delivery", "missing-delivery", "unexpected-delivery", "request-content", "not-delivered", "send-raises", "writer-raised"}


def run_tables(case):
    if case["world"] == "tables":
        return TablesWorld(case).run()
    c = copy.deepcopy(case)      # table operations change the configuration
    w = (TunnelWorld if case["world"] == "tunnel" else usb.UsbWorld)(c).run()
    for v in w.violations:
        if v["cls"] in ROUTING:
            v["tags"] = sorted(set(v["tags"]) | {"C13"})
    return w


# ------------------------------------------------------------------ cases
ASAPS = [1, 2, 3, 4, 5, 6, 100, 255, 257, 65535]


def table_op(rng, t, pool, failing=0.12):
    """an operation which makes sense for the tables t (a plain model kept by the generator)"""
    r = rng.random()
    known = [a for a, g in t.assoc]
    full = [[a, g] for a, g in t.assoc if g]
    op = {"op": "table"}
    if r < 0.36:
        a = rng.choice(ASAPS if len(known) < 10 or rng.random() < 0.5 else known)
        n = rng.choice([1, 1, 1, 2, 2, 3, 4] if len(pool) < 17 else [1, 2, 4, 16, 40])
        mine = t.of(a) or []
        free = [g for g in pool if g not in mine]
        op.update(do="associate", asap=a, groups=rng.sample(free, min(n, len(free))))
    elif r < 0.68 and full:
        a, g = rng.choice(full)
        gs = rng.sample(g, rng.choice([1, 1, 1, min(2, len(g)), len(g)]))
        x = rng.random()
        if x < 0.15:      # one of them is not associated
            gs.insert(rng.randrange(len(gs) + 1), rng.choice(pool))
        elif x < 0.22:
            a = rng.choice([7, 8, 4000])
        op.update(do="disassociate", asap=a, groups=gs)
    elif r < 0.78:
        op.update(do="add", group=rng.choice(pool))
    elif r < 0.86:
        op.update(do="remove", group=rng.choice(pool))
    elif r < 0.94:
        op.update(do="dpt", asap=rng.choice(known or ASAPS), name=rng.choice(gen.DPTS))
    elif r < 0.97:
        op.update(do="undpt", asap=rng.choice(ASAPS))
    else:
        op.update(do="ia", ia=rng.choice([0x1001, 0x1234, 0x7001]))
    if op["do"] in ("associate", "disassociate"):
        if rng.random() < failing / 2:
            op["fail_at"] = rng.randrange(len(op["groups"]) + 1)
        elif rng.random() < 0.15:
            op["lazy"] = True
        elif rng.random() < 0.3:
            op["reuse"] = rng.sample(pool, rng.randint(1, min(2, len(pool))))
    return op


def follow(t, op):
    """the generator's own copy of the tables"""
    try:
        if op.get("fail_at") is not None:
            return
        if op["do"] == "associate" and op["asap"]:
            t.associate(op["asap"], op["groups"])
        elif op["do"] == "disassociate":
            t.disassociate(op["asap"], op["groups"])
        elif op["do"] in ("add", "remove"):
            getattr(t, op["do"])(op["group"])
        elif op["do"] == "dpt":
            t.dpts[op["asap"]] = op["name"]
        elif op["do"] == "undpt":
            t.dpts.pop(op["asap"], None)
        elif op["do"] == "ia":
            t.ia = op["ia"]
    except wire.Refused:
        pass


def view(t):
    return dict(ia=t.ia, max=t.max, assoc=[[a, list(g)] for a, g in t.assoc], dpts={str(a): d for a, d in t.dpts.items()}, explicit=list(t.explicit))


def small_tables(rng, pool):
    cfg = dict(ia=rng.choice([0x1001, 0x110A]), max=rng.choice([1, 2, 3, 4, 6, 255]), assoc=[], dpts={}, explicit=[], style=gen.gen_style(rng))
    if rng.random() < 0.2:
        cfg["ia"] = rng.choice(pool)
    room = set()
    for a in rng.sample(ASAPS, rng.randint(0, 4)):
        gs = rng.sample(pool, rng.randint(1, min(3, len(pool))))
        if len(room | set(gs)) <= cfg["max"]:
            room |= set(gs)
            cfg["assoc"].append([a, gs])
    for a in ASAPS:
        if rng.random() < 0.85:
            cfg["dpts"][str(a)] = rng.choice(gen.DPTS)
    return cfg


def gen_history(rng, prop, tier, i):
    big = rng.random() < 0.03
    if big:
        node = gen.big_tables(rng, 0x1001)
        pool = sorted({g for _, gs in node["assoc"] for g in gs} | set(node["explicit"]) | set(rng.sample(range(1, 0x10000), 40)))
        cfg = dict(node=node, pool=pool)
    else:
        pool = rng.sample([1, 2, 3, 0x10, 0x0F81, 0x0F82, 0x1202, 0x7FFF, 0x8000, 0xFFFF, 0x0100, 0x1001], rng.randint(2, 8))
        pool += sorted(gen.neighbours(rng, pool))
        cfg = dict(node=small_tables(rng, pool), pool=pool)
    if not big and rng.random() < 0.004:      # the ASAPs of a byte are all in use
        big = True
        room = rng.sample(pool, min(len(pool), cfg["node"]["max"]))
        cfg["node"]["assoc"] = [[a, [rng.choice(room)]] for a in range(1, rng.choice([63, 127, 254, 255, 256, 257, 300]) + 1)]
    if len(pool) > cfg["node"]["max"] and rng.random() < 0.3:
        cfg["node"]["max"] = len(pool)
    t = wire.LiveTables(cfg["node"])
    fixed_ia = cfg["node"]["ia"] in pool or 0x1001 in pool
    ops = []
    share = 0.75 if prop == "C17" else 0.4
    for _ in range(rng.choice([3, 8, 20, 60] if not big else [3, 8, 20])):
        r = rng.random()
        if r < share:
            op = table_op(rng, t, pool)
            if op["do"] == "ia" and fixed_ia:
                continue
            follow(t, op)
            if t.open:
                t.resync(set())
            ops.append(op)
        elif r < share + (1 - share) * 0.7:
            v = view(t)
            if rng.random() < 0.15:
                c = gen.gen_cemi(rng, v, 0.5, 0.1)
            else:
                v2 = dict(v, explicit=pool)      # to any address of the pool
                c = gen.gen_group(rng, v2)
            ops.append({"op": "frame", "medium": rng.choice(["ip", "usb"]), "cemi": c.hex()})
        else:
            op = {"op": "request", "medium": rng.choice(["ip", "usb"]), "m": gen.gen_msg(rng, view(t), 0.1)}
            if op["m"]["m"] == "write" and rng.random() < 0.2:
                op["ind"] = 1
            ops.append(op)
    return dict(world="tables", cfg=cfg, ops=ops, faults=[])


def gen_routing(rng, prop, tier, i):
    """C13: histories, and live clients whose tables change under the traffic"""
    if i % 4 < 2:
        return gen_history(rng, prop, tier, i)
    if i % 4 == 2:
        case = tunnel_gen.gen_in(rng, prop, tier, 0)
        case["faults"] = []
        case["ops"] = [o for o in case["ops"] if o["op"] in ("bus", "send")]
        case["cfg"]["gw"]["plan"] = case["cfg"]["gw"]["plan"][:1]
    else:
        case = usb.gen_usb(rng, prop, tier, i)
        case["ops"] = [o for o in case["ops"] if o["op"] == "lines"]
        for o in case["ops"]:
            o["gaps"] = [0.0]
    node = case["cfg"]["node"]
    msgs = case["cfg"]["msgs"] + [o["m"] for o in case["ops"] if o["op"] == "send"]
    node["keep"] = sorted({m["asap"] for m in msgs if "asap" in m})
    t = wire.LiveTables(node)
    pool = sorted(t.addresses() | {1, 0x0F81, 0x2001})
    last = max([o["t"] for o in case["ops"]] + [3.0 * len(case["cfg"]["msgs"]), 3])
    changes = []
    for x in sorted(rng.uniform(0, last) for _ in range(rng.randint(1, 12))):
        op = table_op(rng, t, pool)
        if op["do"] == "ia":
            continue
        op["t"] = round(x, 4) + 0.00003
        follow(t, op)
        if t.open:
            t.resync(set())
        changes.append(op)
    # traffic for the addresses which came and went
    extra = wire.LiveTables(node)
    for op in changes:
        follow(extra, op)
        if extra.open:
            extra.resync(set())
        c = gen.gen_group(rng, dict(view(extra), explicit=pool))
        at = round(op["t"] + 0.2, 4)
        if case["world"] == "tunnel":
            case["ops"].append({"t": max(at, 2.5), "op": "bus", "cemi": c.hex()})
        else:
            case["ops"].append({"t": at, "op": "lines", "lines": [{"cemi": c.hex()}], "cuts": [], "gaps": [0.0]})
    case["ops"] += changes
    return case
