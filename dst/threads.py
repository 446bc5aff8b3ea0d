"""World: threads which receive and send on shared States and tables, under a deterministic scheduler (C14)."""
import copy

from . import gen, sched, stack, wire
from .tunnel import World


class _Clock:
    now = 0.0


CHANNEL = 21


class Setup:
    """the tables and States of one execution"""

    def __init__(self, cfg):
        k = stack.ks()
        self.node = stack.Node(copy.deepcopy(cfg["node"]), "ip", "n")
        self.states = []
        for s in cfg["states"]:
            if s["medium"] == "ip":
                st = k.knxnet_ip.State(k.Medium.knxnet_ip, self.node.association_table, self.node.group_objects)
                k.decode_msg(st, k.knxnet_ip.Msg.make_from_str(wire.connect_res(CHANNEL + len(self.states), 0, "10.0.0.1", 3671).hex()))
                st.sequence_counter_remote = 0
                st.sequence_counter_local = s.get("local", 0)
            else:
                st = k.State(k.Medium.usb_hid, self.node.association_table, self.node.group_objects)
            self.states.append(st)


class Call:
    __slots__ = ("start", "end", "result", "item", "opened", "closed")

    def __init__(self, item):
        self.item = item
        self.start = self.end = None
        self.result = None


def perform(setup, cfg, thread, item):
    """one call of one thread -> plain result"""
    k = stack.ks()
    s = thread["state"]
    medium = cfg["states"][s]["medium"]
    state = setup.states[s]
    try:
        if "m" in item:
            return ("sent", str(k.encode_msg(state, setup.node.message(item["m"]))))
        if medium == "ip":
            result = k.decode_msg(state, k.knxnet_ip.Msg.make_from_str(item["data"]))
            got = [stack.plain(x, setup.node.model) or type(x).__module__ for x in result]
            return ("received", sorted(map(repr, got)), [a.hex() for a in stack.ack(state, result)])
        result = k.decode_msg(state, k.Msg.make_from_str(item["data"]))
        return ("received", sorted(repr(stack.plain(x, setup.node.model) or type(x).__module__) for x in result), [])
    except Exception as e:
        return ("raised", type(e).__name__, str(e))


class ThreadsWorld(World):
    def run(self):
        cfg = self.cfg
        self.loop = _Clock()
        self.fired = {}
        # the sequential executions: each thread alone
        want, places = [], []
        spots = [o for o in self.case["ops"] if "at" in o]
        for n, th in enumerate(cfg["threads"]):
            alone = Setup(cfg)
            if any(o["at"][0] == n for o in spots):
                with sched.Recorder(cfg.get("opcodes", False)) as rec:
                    want.append([perform(alone, cfg, th, item) for item in th["items"]])
                places.append(list(rec.places.items()))
            else:
                want.append([perform(alone, cfg, th, item) for item in th["items"]])
                places.append([])
        there = {}
        for o in spots:
            n, where, visit = o["at"]
            if n < len(places) and places[n]:
                where, visits = places[n][min(int(where * len(places[n])), len(places[n]) - 1)]
                there.setdefault((n, where), {})[min(int(visit * visits), visits - 1)] = o["to"]
        setup = Setup(cfg)
        calls = [[Call(i) for i in th["items"]] for th in cfg["threads"]]
        programs = [self.program(setup, cfg, th, calls[n], n) for n, th in enumerate(cfg["threads"])]
        plan = sorted(((o["n"], o["to"]) for o in self.case["ops"] if "n" in o), key=lambda x: x[0])
        self.s = sched.Scheduler(programs, plan, cfg.get("opcodes", False), spots=there)
        self.s.run()
        for step, j in self.s.trace:
            self.event("switch", j, step)
        self.fired["preemption"] = self.s.switches
        if self.s.overlaps:
            self.fired["preemption inside overlapping calls"] = self.s.overlaps
        for n, th in enumerate(cfg["threads"]):
            for c, w in zip(calls[n], want[n]):
                self.event("result", n, repr(c.result))
                self.compare(n, th, c, w, calls)
        return self

    def program(self, setup, cfg, th, calls, n):
        def run():
            for c in calls:
                c.start = self.s.step
                self.s.in_call[n] = c
                c.result = perform(setup, cfg, th, c.item)
                self.s.in_call[n] = None
                c.end = self.s.step
                self.s.call_done(n)
        return run

    def compare(self, n, th, c, want, calls):
        got = c.result
        what = "message %s" % (c.item["m"],) if "m" in c.item else "datagram %s" % c.item["data"]
        who = "thread %d (%s, state %d)" % (n, th["role"], th["state"])
        if got[0] == "raised" and want[0] != "raised":
            self.violate({"C14"}, "raised", "%s: %s raised %s %s, alone it does not" % (who, what, got[1], got[2]))
            return
        if th["role"] == "send" and self.cfg["states"][th["state"]]["medium"] == "ip" and got[0] == want[0] == "sent":
            g, w = bytes.fromhex(got[1]), bytes.fromhex(want[1])
            if len(g) < 10 or g[:8] + g[9:] != w[:8] + w[9:]:
                self.violate({"C14"}, "frame", "%s: %s is sent as %s, alone as %s" % (who, what, got[1], want[1]))
                return
            lo, hi = self.counters(th["state"], c, calls)
            local = self.cfg["states"][th["state"]].get("local", 0)
            last = getattr(self, "last%d" % th["state"], 0)
            ks = [k for k in range(max(lo, last), hi + 1) if (local + k) & 0xFF == g[8]]
            if not ks:
                self.violate({"C14"}, "number", "%s: %s carries number %d; %d to %d acks were processed before" % (who, what, g[8], lo, hi))
            else:
                setattr(self, "last%d" % th["state"], ks[0])
            return
        if got != want:
            cls = "frame" if "m" in c.item else "received"
            self.violate({"C14"}, cls, "%s: %s gives %s, alone %s" % (who, what, got, want))

    def counters(self, state, c, calls):
        """how many advancing acks were surely / possibly processed before the call read the counter"""
        lo = hi = 0
        for n, th in enumerate(self.cfg["threads"]):
            if th["state"] == state and th["role"] == "receive":
                for x in calls[n]:
                    if x.item.get("advances"):
                        lo += x.end <= c.start
                        hi += x.start <= c.end
        return lo, hi

    def stats(self):
        return {"fired": self.fired, "probes": self.probes, "sim_s": 0.0, "steps": self.s.step, "switches": self.s.switches,
                "calls": sum(len(t["items"]) for t in self.cfg["threads"]), "overlaps": self.s.overlaps}


def run_threads(case):
    return ThreadsWorld(case).run()


# ------------------------------------------------------------------ cases
def receive_items(rng, node, s, n, channel, theme=(0.25, 0.05)):
    """datagrams of a session, with repetitions, losses and acks"""
    items = []
    seq, local = 0, s.get("local", 0)
    for _ in range(n):
        r = rng.random()
        if s["medium"] == "usb":
            items.append({"data": wire.usb_report(gen.gen_cemi(rng, node, *theme)).ljust(56, b"\0").hex()})
        elif r < 0.65:
            items.append({"data": wire.tun_req(channel, seq, gen.gen_cemi(rng, node, *theme)).hex()})
            if rng.random() < 0.15:
                items.append(dict(items[-1]))
            seq = (seq + 1) & 0xFF
        elif r < 0.7:
            items.append({"data": wire.tun_req(channel, (seq + rng.choice([2, 100])) & 0xFF, gen.gen_cemi(rng, node)).hex()})
        elif r < 0.93:
            items.append({"data": wire.tun_ack(channel, local).hex(), "advances": 1})
            local = (local + 1) & 0xFF
        else:
            items.append({"data": wire.tun_ack(channel, (local + rng.choice([255, 1, 254])) & 0xFF).hex()})
    return items


def gen_threads(rng, prop, tier, i):
    node = gen.gen_tables(rng)
    states, threads = [], []
    theme = rng.choice([(0.25, 0.05), (0.25, 0.05), (1.0, 0.0), (0.0, 0.0)])     # what the calls are alike in
    for k in range(rng.choice([1, 1, 1, 2, 2, 3])):
        s = {"medium": rng.choice(["ip", "ip", "usb"])}
        if s["medium"] == "ip":
            s["local"] = rng.choice([0, 0, 7, 254, 255])
        states.append(s)
        both = k == 0 or rng.random() < 0.5
        roles = ["receive", "send"] if both else [rng.choice(["receive", "send"])]
        for role in roles:
            n = rng.choice([1, 1, 2, 3, 5])
            if role == "receive":
                items = receive_items(rng, node, s, n, CHANNEL + k, theme)
            else:
                items = [{"m": gen.gen_msg(rng, node, theme[0])} for _ in range(n)]
            threads.append(dict(state=k, role=role, items=items))
    rng.shuffle(threads)
    opcodes = rng.random() < 0.35
    calls = sum(len(t["items"]) for t in threads)
    total = calls * (2200 if opcodes else 330)
    style = rng.randrange(8)
    ops = []
    if style >= 4:          # at any statement, another thread makes one call meanwhile
        for _ in range(rng.choice([1, 1, 2, 4, 8])):
            ops.append({"at": [rng.randrange(len(threads)), round(rng.random(), 4), round(rng.choice([0.0, rng.random()]), 4)],
                        "to": rng.randrange(len(threads))})
        steps = []
    elif style == 0:          # a few switches anywhere
        steps = sorted(rng.randrange(total) for _ in range(rng.choice([1, 2, 2, 3, 4, 6])))
    elif style == 1:        # many
        steps = sorted(rng.randrange(total) for _ in range(rng.choice([20, 60, 150])))
    elif style == 2:        # bursts of short turns
        steps, n = [], 0
        for _ in range(rng.choice([3, 8])):
            n += rng.randrange(1, max(2, total // 4))
            for _ in range(rng.choice([4, 20])):
                n += rng.choice([1, 1, 2, 3, 7, 30])
                steps.append(n)
    else:                   # turns of similar length
        size = rng.choice([3, 10, 40, 150])
        steps, n = [], 0
        while n < total and len(steps) < 400:
            n += rng.randrange(1, 2 * size)
            steps.append(n)
    for n in steps:
        ops.append({"n": n, "to": rng.randrange(len(threads))})
    return dict(world="threads", cfg=dict(node=node, states=states, threads=threads, opcodes=opcodes), ops=ops, faults=[])
