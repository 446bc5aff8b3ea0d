"""Cases of the tunnelling world, one mix per property."""
from . import gen, wire

CG, GC = "c>g", "g>c"


def base(rng, prop_share=0.2):
    gw = dict(plan=[dict(status=0, channel=rng.choice([1, 2, 7, 21, 116, 255]), delay=rng.choice([0, 0, 0.05, 0.6, 1.5]))],
              dup=rng.choice(["same", "refuse"]), retries=rng.choice([1, 1, 2, 3, 5]), timeout=1.0,
              con=rng.random() < 0.8, constatus=rng.choice([[0], [0], [0, 1], [1]]))
    return dict(node=gen.gen_tables(rng), net=gen.gen_net(rng), gw=gw, msgs=[])


def times(rng, n, t0=2.5, style=None):
    style = style or ("rare" if rng.random() < 0.04 else rng.choice(["dense", "normal", "sparse", "bursts"]))
    t = t0
    out = []
    gaps = rng.sample(range(n), min(n, 3)) if style == "rare" else ()
    for x in range(n):
        if style == "dense":
            t += rng.choice([0.0, 0.001, 0.01, 0.02])
        elif style == "normal":
            t += rng.uniform(0.05, 1.0)
        elif style == "sparse":
            t += rng.uniform(0.5, 4.0)
        elif style == "rare":       # long silences
            t += rng.choice([0.01, 1.0, 10.0]) if x not in gaps else rng.choice([59.0, 61.0, 119.5, 121.0, 600.0, 3601.0, 4e4])
        else:
            t += rng.choice([0.0, 0.0, 0.001, 0.3, 3.0])
        out.append(round(t, 4))
    return out


def bus_ops(rng, cfg, n, prop=0.15, other=0.1, style=None, t0=2.5):
    out, frames = [], []
    for t in times(rng, n, t0, style):
        c = gen.again(rng, frames, lambda: gen.gen_cemi(rng, cfg["node"], prop, other))
        if rng.random() < 0.02:
            c = gen.enlarged(rng, c)
        frames.append(c)
        out.append({"t": t, "op": "bus", "cemi": c.hex()})
    return out


def send_ops(rng, cfg, n, prop=0.2, style=None, t0=2.5):
    out = []
    for t in times(rng, n, t0, style):
        m = gen.again(rng, [o["m"] for o in out], lambda: gen.gen_msg(rng, cfg["node"], prop))
        out.append({"t": t, "op": "send", "m": m})
    return out


def messages(rng, cfg, n, prop=0.2):
    out = []
    for _ in range(n):
        out.append(gen.again(rng, out, lambda: gen.gen_msg(rng, cfg["node"], prop)))
    return out


def fault_mix(rng, count, wrap=False, links=(GC, CG)):
    r = rng.random()
    if r < 0.12:
        return []
    rate = rng.choice([0.02, 0.05, 0.1, 0.2])
    kinds = rng.choice([("drop",), ("dup",), ("delay",), ("drop", "dup"), ("drop", "dup", "delay"), ("drop", "dup", "delay")])
    skip = 2 if rng.random() < 0.9 else 0
    if wrap:
        delays = rng.choice([(0.01, 0.2), (0.01, 0.2), (0.01, 0.2, 0.9, 1.1, 2.5)])
        out = []
        for link in links:
            lo = rng.choice([245, 250, 254])
            fs = gen.gen_faults(rng, [link], 30, rng.choice([0.1, 0.2, 0.4]), kinds, delays)
            for f in fs:
                f["n"] += lo
            out += fs
        if rng.random() < 0.5:
            out += [f for f in gen.gen_faults(rng, links, count, 0.02, kinds, delays) if f["n"] >= skip]
        return out
    return [f for f in gen.gen_faults(rng, links, count, rate, kinds) if f["n"] >= skip]


def foreign(rng):
    """another channel, as the distance to the own one: far, or only one bit away"""
    return rng.choice([1, 5, 200, -1, 128, 64, 32, 16, 8, 4, 2, rng.randint(1, 255)])


def icmp_ops(rng, ops, share=0.15):
    """the host or the port of the gateway is unreachable for a moment: nothing but a report"""
    if rng.random() >= share:
        return
    last = max([o["t"] for o in ops] + [5])
    for _ in range(rng.choice([1, 1, 2, 5])):
        near = rng.choice(ops)["t"] if ops and rng.random() < 0.5 else rng.uniform(0.1, last + 1)
        ops.append({"t": round(max(near + rng.choice([-0.0005, 0.0005, 0.02]), 0.0001), 4), "op": "icmp"})


def raw_ops(rng, cfg, n, what, t0=2.5, span=30.0):
    out = []
    for _ in range(n):
        t = round(rng.uniform(t0, t0 + span), 4)
        k = rng.choice(what)
        o = {"t": t, "op": "raw"}
        if k == "req":      # out of sequence, or the last one once more
            o.update(kind="req", off=rng.choice([-1, -1, 1, 2, -2, -3, 5, 127, 128, -128]), tag="request out of sequence",
                     cemi=gen.gen_cemi(rng, cfg["node"]).hex())
        elif k == "ack":
            o.update(kind="ack", off=rng.choice([0, -1, -1, 1, 2, -2, 128]), status=0, tag="ack out of sequence")
            if o["off"] == 0 or rng.random() < 0.3:
                o["status"] = rng.choice([0x04, 0x21, 0x22, 0x29, 0x26, 0x01, 0xFF])
                o["tag"] = "negative ack"
        elif k == "fack":
            o.update(kind="ack", off=rng.choice([0, 0, 0, -1]), status=0, ch=foreign(rng), tag="foreign ack")
        elif k == "freq":
            o.update(kind="req", off=rng.choice([0, 0, 0, -1]), ch=foreign(rng), tag="foreign request",
                     cemi=gen.gen_cemi(rng, cfg["node"], other=0).hex())
        elif k == "refusal":
            o.update(kind="connect_res", status=rng.choice([0x22, 0x23, 0x24]), long=rng.random() < 0.5, tag="refusal")
        elif k == "connect":
            o.update(kind="connect_res", status=0, tag="repeated connect response")
        elif k == "disc":
            o.update(kind="disc_res", ch=foreign(rng), status=0, tag="foreign disconnect response")
        elif k == "odisc":
            o.update(kind="disc_res", ch=0, own=1, status=rng.choice([0, 0x21, 0x26, 0x29]), tag="disconnect response")
        elif k == "cstate":
            o.update(kind="cstate_res", status=rng.choice([0, 0x21, 0x26, 0x27]), tag="connectionstate response")
            if rng.random() < 0.5:
                o.update(ch=foreign(rng), tag="foreign connectionstate response")
        out.append(o)
    return out


def gen_in(rng, prop, tier, i):
    """C01, C02: mostly incoming traffic"""
    cfg = base(rng)
    long = i % 8 == 3
    if long:
        n = rng.choice([255, 256, 257, 258, 262, 275, 300]) if rng.random() < 0.9 else rng.randint(500, 560)
        cfg["net"].update(latency=rng.choice([0.001, 0.005]), jitter=rng.choice([0.0, 0.0, 0.01]))
        cfg["gw"]["retries"] = rng.choice([2, 3, 5, 8])
        cfg["gw"]["con"] = rng.random() < 0.5
        ops = bus_ops(rng, cfg, n, style="dense")
        faults = fault_mix(rng, n, True)
    else:
        n = rng.randint(1, 30)
        ops = bus_ops(rng, cfg, n, other=rng.choice([0.1, 0.1, 0.5]))
        faults = fault_mix(rng, n + 6)
    if rng.random() < 0.4:
        ops += send_ops(rng, cfg, rng.randint(1, 8))
    if rng.random() < 0.3:
        cfg["msgs"] = messages(rng, cfg, rng.randint(1, 4))
    if rng.random() < 0.4:
        ops += raw_ops(rng, cfg, rng.randint(1, 6), ["req", "req", "ack", "refusal", "connect", "disc", "cstate", "freq"])
    if rng.random() < 0.12 and not long:
        extra_session(rng, cfg, ops)
    icmp_ops(rng, ops)
    return dict(world="tunnel", cfg=cfg, ops=ops, faults=faults)


def extra_session(rng, cfg, ops):
    last = max([o["t"] for o in ops] + [3])
    t = round(rng.uniform(3, last + 1), 4)
    cfg["gw"]["plan"].append(dict(status=0, channel=rng.choice([3, 9, 200, cfg["gw"]["plan"][0]["channel"]])))
    if rng.random() < 0.4:
        ops.append({"t": t, "op": "restart", "down": rng.choice([0.1, 1.0])})
        t += rng.choice([0.5, 2.0])
    o = {"t": t, "op": "reconnect", "fresh": rng.random() < 0.4, "msgs": []}
    if rng.random() < 0.4:
        o["port"] = 5600 + len(ops)
    elif not any(x["op"] == "restart" for x in ops):
        # the gateway still has the old connection of this endpoint: let it forget
        ops.append({"t": t, "op": "restart", "down": 0.0})
        o["t"] = t + 0.001
    ops.append(o)


def gen_out(rng, prop, tier, i):
    """C03: mostly outgoing traffic"""
    cfg = base(rng)
    long = i % 8 == 3
    if long:
        n = rng.choice([255, 256, 257, 258, 262, 275, 300]) if rng.random() < 0.9 else rng.randint(500, 530)
        cfg["net"].update(latency=rng.choice([0.001, 0.005]), jitter=rng.choice([0.0, 0.0, 0.01]))
        cfg["gw"]["con"] = rng.random() < 0.3
        cfg["gw"]["retries"] = 8
        ops = [{"t": round(2.5 + 0.1 * k, 4), "op": "send", "m": gen.gen_msg(rng, cfg["node"])} for k in range(n)]
        faults = fault_mix(rng, n, True)
    else:
        n = rng.randint(1, 25)
        ops = send_ops(rng, cfg, n)
        faults = fault_mix(rng, n + 6)
    if rng.random() < 0.5:
        cfg["msgs"] = messages(rng, cfg, rng.randint(1, 6))
    if rng.random() < 0.4:
        ops += bus_ops(rng, cfg, rng.randint(1, 10))
    if rng.random() < 0.5:
        ops += raw_ops(rng, cfg, rng.randint(1, 8), ["ack", "ack", "fack", "connect", "refusal", "disc", "cstate"])
    if rng.random() < 0.3:
        for t in times(rng, rng.randint(1, 3)):
            ops.append({"t": t, "op": "reject", "status": rng.choice([0x04, 0x22, 0x29, 0x26, 0x01, 0x99])})
    if rng.random() < 0.12 and not long:
        extra_session(rng, cfg, ops)
    icmp_ops(rng, ops)
    return dict(world="tunnel", cfg=cfg, ops=ops, faults=faults)


def gen_sessions(rng, prop, tier, i):
    """C04: connects, refusals, restarts, reconnects"""
    cfg = base(rng)
    plan = []
    for k in range(rng.randint(1, 5)):
        if rng.random() < 0.35:
            plan.append(dict(status=rng.choice([0x22, 0x23, 0x24]), channel=0, form=rng.choice(["short", "long"]),
                             delay=rng.choice([0, 0.3])))
        else:
            plan.append(dict(status=0, channel=rng.choice([1, 2, 3, 5, 8, 200, 255]), delay=rng.choice([0, 0, 0.05, 0.6, 3.0])))
    plan.append(dict(status=0, channel=rng.choice([1, 4, 77])))
    cfg["gw"]["plan"] = plan
    cfg["gw"]["retries"] = rng.choice([1, 3])
    if rng.random() < 0.25:
        cfg["used"] = [rng.choice([0] + [p["channel"] for p in plan]), gen.edge(rng, 8) if rng.random() < 0.5 else 255,
                       gen.edge(rng, 8) if rng.random() < 0.5 else 255]
    if rng.random() < 0.6:
        cfg["msgs"] = messages(rng, cfg, rng.randint(1, 4))
    ops = []
    t = 2.5
    for k in range(rng.randint(0, 4)):
        nb, ns = rng.randint(0, 6), rng.randint(0, 4)
        part = bus_ops(rng, cfg, nb, t0=t, style="normal") + send_ops(rng, cfg, ns, t0=t, style="normal")
        part += raw_ops(rng, cfg, rng.randint(0, 4), ["refusal", "connect", "connect", "disc", "disc", "cstate"], t, 4.0)
        ops += part
        t = max([o["t"] for o in part] + [t]) + rng.choice([0.0, 0.5, 5.0])
        o = {"op": "reconnect", "fresh": rng.random() < 0.3,
             "msgs": messages(rng, cfg, rng.randint(0, 2))}
        r = rng.random()
        if r < 0.5:
            ops.append({"t": t, "op": "restart", "down": rng.choice([0.0, 0.2])})
            t += rng.choice([0.001, 0.5])
        elif r < 0.75:
            o["port"] = 5600 + k
        o["t"] = round(t, 4)
        ops.append(o)
        t += rng.choice([0.2, 1.0, 4.0])
    ops += bus_ops(rng, cfg, rng.randint(1, 6), t0=t, style="normal") + send_ops(rng, cfg, rng.randint(1, 4), t0=t, style="normal")
    faults = fault_mix(rng, 12) if rng.random() < 0.5 else []
    # the core services are the first datagrams of a link: repeat and delay these
    for n in range(3):
        if rng.random() < 0.35:
            faults.append({"link": rng.choice([GC, GC, CG]), "n": n, "kind": rng.choice(["dup", "dup", "delay", "drop"]),
                           "arg": rng.choice([0.001, 0.1, 0.7, 2.0, 5.0])})
    icmp_ops(rng, ops)
    return dict(world="tunnel", cfg=cfg, ops=ops, faults=faults)


def refuse_op(rng, cfg, t):
    """a request which cannot be encoded"""
    node = cfg["node"]
    known = [a for a, g in node["assoc"]]
    model = wire.Tables(node)
    o = {"t": t, "op": "refuse", "what": rng.choice(["write", "write", "read", "nothing", "data", "data", "address", "object", "con"]),
         "asap": rng.choice([7, 8888, 4] + known)}
    if o["what"] in ("write", "read"):
        o["asap"] = rng.choice([7, 8888, 4])
    if o["what"] in ("write", "con"):
        o["name"] = rng.choice(sorted(set(model.dpts.values()) or gen.DPTS))
        o["value"] = 0 if wire.DPT_BYTES[o["name"]] == 0 else rng.randrange(1 << 8 * wire.DPT_BYTES[o["name"]])
    if o["what"] == "data":
        o["data"] = rng.choice(["zz", "0g", "00 ", None, "12-4", "00112z"])
    if o["what"] == "address":
        o["service"] = rng.choice(["connect", "search", "connectionstate", "disconnect"])
    return o


def gen_refuse(rng, prop, tier, i):
    """C23: a session with requests which fail to be encoded"""
    if i % 4 == 3:
        from . import usb
        case = usb.gen_usb(rng, "C09", tier, i)
        last = 3.0 * len(case["cfg"]["msgs"])
        near = [3.0 * k + case["cfg"]["connect_delay"] for k in range(len(case["cfg"]["msgs"]))]
    else:
        case = (gen_in if i % 2 else gen_out)(rng, "C01", tier, 0)
        near = [2.0, 3.0, 5.0, 6.0, 9.0]
        last = max([o["t"] for o in case["ops"]] + [5])
    near += [o["t"] for o in case["ops"]]
    case["cfg"]["refuse"] = True
    for _ in range(rng.choice([1, 1, 2, 4, 12])):
        r = rng.random()
        t = rng.choice(near) + rng.choice([-0.0005, 0.00001, 0.0005, 0.003, 0.01]) if near and r < 0.7 else rng.uniform(0, last + 1)
        case["ops"].append(refuse_op(rng, case["cfg"], round(max(t, 0.0001), 5)))
    if rng.random() < 0.5:       # what failed becomes possible, or nearly
        a, g, d = rng.choice([7, 8888, 4]), rng.choice([1, 0x0F81, 0x2001]), rng.choice(gen.DPTS)
        node = case["cfg"]["node"]
        room = len(wire.Tables(node).addresses() | {g}) <= node["max"]
        if room and a not in [x for x, _ in node["assoc"]] and str(a) not in case["cfg"]["node"]["dpts"]:
            t = round(rng.uniform(0.2, last), 4) + 0.00002
            first = rng.choice(["dpt", "associate"])
            for n, do in enumerate([first, "associate" if first == "dpt" else "dpt"]):
                op = {"t": t + 2 * n, "op": "table", "do": do, "asap": a}
                op.update(dict(groups=[g]) if do == "associate" else dict(name=d))
                case["ops"].append(op)
                for k in range(2):
                    case["ops"].append({"t": round(t + 2 * n - 0.5 + k * 0.6, 5), "op": "refuse", "what": rng.choice(["write", "read", "nothing"]), "asap": a, "name": d, "value": 1})
                    c = gen.gen_group(rng, dict(case["cfg"]["node"], explicit=[g], assoc=[], dpts={})).hex()
                    at = round(t + 2 * n + 0.3 + k * 0.7, 4)
                    case["ops"].append({"t": max(at, 2.5), "op": "bus", "cemi": c} if case["world"] == "tunnel" else
                                       {"t": at, "op": "lines", "lines": [{"cemi": c}], "cuts": [], "gaps": [0.0]})
            if case["world"] == "tunnel":
                case["ops"].append({"t": t + 3.5, "op": "send", "m": {"m": rng.choice(["write", "read"]), "asap": a, "value": 1}})
    return dict(case, world="refuse-usb" if case["world"] == "usb" else "refuse")


def control_ops(rng, n, t0, span, kinds=("cstate",)):
    out = []
    for _ in range(n):
        o = {"t": round(rng.uniform(t0, t0 + span), 4), "op": rng.choice(kinds)}
        if rng.random() < 0.2:      # the answer goes elsewhere
            o.update(addr=rng.choice(["10.0.0.2", "192.168.255.1", "1.2.3.4"]), port=rng.choice([1, 255, 256, 3671, 40000, 65535]))
        out.append(o)
    return out


def gen_control(rng, prop, tier, i):
    """C18: the application keeps its connection alive, ends it and makes another one"""
    cfg = base(rng)
    cfg["control"] = True
    chans = [1, 2, 3, 5, 21, 128, 200, 254, 255]
    plan = [dict(status=0, channel=rng.choice(chans), delay=rng.choice([0, 0, 0.05, 0.6])) for _ in range(6)]
    cfg["gw"]["plan"] = plan
    if rng.random() < 0.3:
        plan.insert(rng.randint(0, 2), dict(status=rng.choice([0x22, 0x23, 0x24]), channel=0, form=rng.choice(["short", "long"])))
    if rng.random() < 0.3:
        cfg["msgs"] = messages(rng, cfg, rng.randint(1, 3))
    ops = control_ops(rng, rng.choice([0, 0, 1, 2]), 0.001, 2.4, ("cstate", "cstate", "disc"))
    t = 2.5
    for k in range(rng.randint(1, 4)):
        span = rng.choice([0.1, 2.0, 8.0])
        part = bus_ops(rng, cfg, rng.randint(0, 6), t0=t) + send_ops(rng, cfg, rng.randint(0, 4), t0=t)
        part += control_ops(rng, rng.choice([0, 1, 2, 5]), t, span)
        part += raw_ops(rng, cfg, rng.choice([0, 0, 1, 3]), ["disc", "cstate", "odisc", "refusal", "connect", "ack"], t, span)
        ops += part
        t = round(max([o["t"] for o in part] + [t]) + rng.choice([0.0, 0.01, 0.5]), 4)
        r = rng.random()
        if r < 0.75:
            ops += control_ops(rng, rng.choice([1, 1, 1, 2]), t, 0.05, ("disc",))
            if rng.random() < 0.4:  # frames and requests on their way
                ops += bus_ops(rng, cfg, rng.randint(1, 3), t0=t, style="dense")
            t = round(t + rng.choice([0.05, 0.5, 2.0]), 4)
            ops += control_ops(rng, rng.choice([0, 0, 1, 2]), t, 0.3, ("cstate", "disc"))
        elif r < 0.9:
            ops.append({"t": t, "op": "restart", "down": rng.choice([0.0, 0.2])})
            t = round(t + 0.3, 4)
            ops += control_ops(rng, rng.choice([0, 1, 2]), t, 0.3, ("cstate", "cstate", "disc"))
        else:
            continue
        t = round(t + 0.4, 4)
        if rng.random() < 0.85:
            o = {"t": t, "op": "reconnect", "fresh": rng.random() < 0.2, "msgs": messages(rng, cfg, rng.randint(0, 2))}
            if rng.random() < 0.3:
                o["port"] = 5600 + k
            ops.append(o)
            t = round(t + rng.choice([0.1, 1.0, 3.0]), 4)
    ops += bus_ops(rng, cfg, rng.randint(0, 4), t0=t, style="normal") + send_ops(rng, cfg, rng.randint(0, 3), t0=t, style="normal")
    ops += control_ops(rng, rng.choice([0, 1]), t, 1.0)
    faults = fault_mix(rng, 20) if rng.random() < 0.5 else []
    icmp_ops(rng, ops)
    return dict(world="tunnel", cfg=cfg, ops=ops, faults=faults)


SERVICES = [0x0201, 0x0203, 0x0204, 0x0205, 0x0207, 0x0209, 0x0310, 0x0311, 0x0422, 0x0530, 0x0531, 0x0600, 0x0740, 0x0000, 0xFFFF,
            0x2004, 0x0020, 0x1420]


def noise_op(rng, cfg, t):
    o = {"t": t, "op": "raw"}
    k = rng.randrange(12)
    cemi = gen.gen_cemi(rng, cfg["node"], other=0).hex()
    what = rng.choice(["req", "req", "ack", "connect", "disc"])
    if k == 0:
        o.update(kind="bytes", data=rng.choice(["", "06", "0610", "061004", "06100420", "0610042000", "061004210a", "ff" * 5, "00" * 20]),
                 tag="short datagram")
    elif k == 1:
        o.update(kind="bytes", data=bytes(rng.randrange(256) if j or 0 else rng.choice([0, 5, 7, 255]) for j in range(rng.randint(1, 40))).hex(),
                 tag="garbage")
    elif k == 2:
        o.update(kind="mangled", what=what, how="version", arg=rng.choice([0x11, 0x20, 0x00, 0x0F, 0xFF]), cemi=cemi, tag="other version")
    elif k == 3:
        o.update(kind="mangled", what=what, how="header", arg=rng.choice([5, 7, 0, 8, 255]), cemi=cemi, tag="other header size")
    elif k == 4:
        o.update(kind="mangled", what=what, how="service", arg=rng.choice(SERVICES), cemi=cemi, tag="unknown service")
    elif k == 5:
        what = rng.choice(["req", "ack", "connect", "disc"])
        o.update(kind="mangled", what=what, how="short", arg=rng.randint(0, {"req": 9, "ack": 9, "connect": 19, "disc": 7}[what]),
                 cemi=cemi, tag="truncated " + what)
    elif k == 10:
        o.update(kind="cstate_res", status=rng.choice([0, 0, 0x21, 0x26]), ch=foreign(rng), tag="foreign connectionstate response")
    elif k == 11:
        o.update(kind="disc_res", status=rng.choice([0, 0, 0x21]), ch=foreign(rng), tag="foreign disconnect response")
    elif k in (6, 7):
        o.update(kind="req", off=rng.choice([0, 0, 0, -1, 1]), ch=foreign(rng), cemi=cemi, tag="foreign request")
    else:
        o.update(kind="ack", off=rng.choice([0, 0, 0, -1]), status=rng.choice([0, 0, 0, 0x29]), ch=foreign(rng), tag="foreign ack")
    if rng.random() < 0.3:
        o["src"] = 1
    return o


def early_noise(rng, cfg, t):
    o = {"t": t, "op": "raw", "kind": "bytes", "tag": "noise before the connection"}
    r = rng.randrange(4)
    valid = rng.choice([wire.tun_req(1, 0, gen.gen_cemi(rng, cfg["node"])), wire.tun_ack(1, 0),
                        wire.connect_res(9, 0, "10.0.0.1", 3671)])
    if r == 0:
        data = rng.choice([b"", b"\x06", b"\x06\x10\x04", b"\x06\x10\x02\x06\x00"])
    elif r == 1:
        data = bytes([6, rng.choice([0x11, 0x20, 0])]) + valid[2:]
    elif r == 2:
        data = valid[:2] + rng.choice(SERVICES).to_bytes(2, "big") + valid[4:]
    else:
        data = wire.connect_res(9, 0, "10.0.0.1", 3671)[:rng.randint(6, 19)]
    o["data"] = data.hex()
    return o


def gen_noise(rng, prop, tier, i):
    """C05: a session, and the same session with noise"""
    cfg = base(rng)
    ops = bus_ops(rng, cfg, rng.randint(0, 15)) + send_ops(rng, cfg, rng.randint(0, 10))
    if rng.random() < 0.6:
        cfg["msgs"] = messages(rng, cfg, rng.randint(1, 4))
    faults = fault_mix(rng, 20) if rng.random() < 0.4 else []
    last = max([o["t"] for o in ops] + [5])
    if rng.random() < 0.15:
        extra_session(rng, cfg, ops)
    icmp_ops(rng, ops)
    for _ in range(rng.randint(1, 25)):
        r = rng.random()
        if r < 0.15:
            ops.append(early_noise(rng, cfg, round(rng.uniform(0.0005, 2.4), 4)))
        elif r < 0.6 and ops:
            near = rng.choice(ops)["t"]     # between a request and its ack
            ops.append(noise_op(rng, cfg, round(max(0.0005, near + rng.choice([0.0005, cfg["net"]["latency"] * 1.5, 0.01, 0.5])), 4)))
        else:
            ops.append(noise_op(rng, cfg, round(rng.uniform(1.0, last + 2), 4)))
    return dict(world="noise", cfg=cfg, ops=ops, faults=faults)


def gen_writer(rng, prop, tier, i):
    """C06: lists of messages"""
    cfg = base(rng)
    n = rng.choice([0, 1, 2, 3, 5, 8, 12]) if i % 10 else rng.choice([40, 90])
    if i % 100 == 50:
        n = rng.choice([255, 256, 257, 258, 300, 520])
    cfg["msgs"] = messages(rng, cfg, n, 0.25)
    if n and rng.random() < 0.3:     # the same message again and again
        cfg["msgs"] = [cfg["msgs"][rng.randrange(min(2, n))] for _ in range(n)]
    cfg["iter"] = rng.random() < 0.3
    if rng.random() < 0.1:
        cfg["spoilt"] = [rng.randint(0, min(n, 12)), rng.choice(["write", "read", "object", "raise"])]
    cfg["gw"]["plan"][0]["delay"] = rng.choice([0, 0, 0.1, 0.999, 1.0, 2.7, 30.0])
    ops = bus_ops(rng, cfg, rng.randint(0, 12), t0=0.5)
    if rng.random() < 0.5:
        for t in times(rng, rng.randint(1, 5), t0=0.2):
            ops.append({"t": t, "op": "icmp"})
    if rng.random() < 0.5:
        ops += raw_ops(rng, cfg, rng.randint(1, 6), ["refusal", "refusal", "connect", "disc", "cstate", "ack", "fack", "freq", "req"], 0.0,
                       3.0 * n + 5)
    if rng.random() < 0.3:
        for t in times(rng, rng.randint(1, 3)):
            ops.append({"t": t, "op": "reject", "status": rng.choice([0x04, 0x29, 0x26])})
    faults = fault_mix(rng, n + 10)
    if rng.random() < 0.15:
        refused = dict(status=rng.choice([0x22, 0x24]), channel=0, form=rng.choice(["short", "long"]))
        cfg["gw"]["plan"].insert(0, refused)
        ops.append({"t": round(rng.uniform(2, 8), 4), "op": "reconnect", "fresh": rng.random() < 0.5,
                    "msgs": messages(rng, cfg, rng.randint(1, 4))})
    return dict(world="tunnel", cfg=cfg, ops=ops, faults=faults)


def gen_property(rng, prop, tier, i):
    """C16 on the tunnelling client"""
    cfg = base(rng)
    ops = bus_ops(rng, cfg, rng.randint(1, 20), prop=0.6, other=0.1)
    ops += send_ops(rng, cfg, rng.randint(0, 8), prop=0.8)
    cfg["msgs"] = messages(rng, cfg, rng.randint(0, 6), 0.8)
    cfg["gw"]["responder"] = rng.choice([None, "answer", "answer", "echo"])
    faults = fault_mix(rng, 30)
    icmp_ops(rng, ops)
    return dict(world="tunnel", cfg=cfg, ops=ops, faults=faults)


def simplify(case):
    """smaller configurations to try while minimising"""
    import copy
    cfg = case["cfg"]
    for key, value in (("jitter", 0.0), ("latency", 0.005)):
        if "net" in cfg and cfg["net"].get(key) != value:
            c = copy.deepcopy(case)
            c["cfg"]["net"][key] = value
            yield c
    node = cfg.get("node")
    if node and case["world"] in ("tunnel", "noise", "usb", "refuse", "refuse-usb"):
        for a, _ in node["assoc"]:
            used = any(o.get("asap") == a or o.get("m", {}).get("asap") == a for o in case["ops"] if o["op"] != "lines") or any(m.get("asap") == a for m in cfg.get("msgs", []))
            if not used and len(node["assoc"]) > 1:
                c = copy.deepcopy(case)
                c["cfg"]["node"]["assoc"] = [x for x in node["assoc"] if x[0] != a]
                c["cfg"]["node"]["dpts"].pop(str(a), None)
                yield c
