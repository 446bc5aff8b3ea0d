"""Generators of configurations, frames and requests (plain data, drawn from the PRNG of a case)."""
import random

from . import physical, wire

DPTS = sorted(wire.DPT_BYTES)
ENDS = [m | e << 11 for m in (0x7FF, 0x400, 0x401, 0x8000, 0x8001, 0x83FF, 0x87FF) for e in (0, 1, 2, 14, 15)]


def rng_for(seed, prop, index):
    return random.Random("%d/%s/%d" % (seed, prop, index))


def gen_style(rng):
    """how the tables are filled and the addresses written (see stack.Node)"""
    return rng.choice([0, rng.randrange(128)])


def gen_tables(rng, max_asaps=6, max_groups=8):
    ia = rng.choice([0x1001, 0x1004, 0x110A, rng.randrange(1, 0xFFFF)])
    if max_asaps >= 6 and rng.random() < 0.06:
        return big_tables(rng, ia)
    pool = set()
    while len(pool) < rng.randint(1, max_groups):
        pool.add(rng.choice([rng.randrange(1, 0x10000), rng.randrange(1, 0x200), 0x0F81, 0xFFFF, 1, 0x7FFF, 0x8000]))
    if rng.random() < 0.3:
        pool.add(ia)  # numerically equal to the individual address
    pool = sorted(pool | neighbours(rng, pool))
    asaps = rng.sample([1, 2, 3, 5, 8, 100, 255, 1000, 65535][:9], rng.randint(1, max_asaps))
    asaps += neighbours(rng, asaps) if len(asaps) < max_asaps else []
    assoc = []
    for a in asaps:
        groups = rng.sample(pool, rng.randint(1, min(3, len(pool))))
        if rng.random() < 0.3 and len(groups) > 1:
            assoc.append([a, groups[:1]])
            assoc.append([a, groups[1:]])
        else:
            assoc.append([a, groups])
    if rng.random() < 0.2:
        rng.shuffle(assoc)
    merged = {}
    for a, g in assoc:
        merged.setdefault(a, []).extend(x for x in g if x not in merged.get(a, []))
    dpts = {}
    for a in asaps:
        if rng.random() < 0.9 or not dpts:
            dpts[str(a)] = rng.choice(DPTS)
    explicit = rng.sample(pool, rng.randint(0, 2)) if len(pool) > 2 and rng.random() < 0.3 else []
    return dict(ia=ia, max=255, assoc=[[a, g] for a, g in merged.items()], dpts=dpts, explicit=explicit, style=gen_style(rng))


def neighbours(rng, pool, share=0.25):
    """addresses (or ASAPs) one bit away from the others"""
    if not pool or rng.random() > share:
        return set()
    return {rng.choice(sorted(pool)) ^ 1 << rng.randrange(16) for _ in range(rng.randint(1, 2))} - {0} - set(pool)


def big_tables(rng, ia):
    """the tables of a whole building"""
    n = rng.choice([17, 33, 65, 100, 127, 129, 200, 255, 256, 257, 300])
    pool = set(rng.sample(range(1, 0x10000), n - 2))
    while len(pool) < n:
        pool.add(rng.choice([ia, 0xFFFF, 0x8000, 1, rng.randrange(1, 0x10000)]))
    pool = sorted(pool)
    if rng.random() < 0.5:
        rng.shuffle(pool)
    count = rng.choice([10, 17, 40, 80])
    asaps = rng.sample([255, 256, 257, 1000, 65535], 3) + rng.sample(range(2, 254), count)
    assoc = [[a, []] for a in asaps]
    for x, g in enumerate(pool[:n - rng.choice([0, 0, 5])]):      # each once
        assoc[x % len(assoc) if rng.random() < 0.7 else 0][1].append(g)
    for _ in range(rng.choice([0, 10, 60])):                      # and some of them shared by many
        g = pool[rng.randrange(min(len(pool), 4))] if rng.random() < 0.6 else rng.choice(pool)
        a = rng.choice(assoc)
        if g not in a[1]:
            a[1].append(g)
    assoc = [x for x in assoc if x[1]]
    dpts = {str(a): rng.choice(DPTS) for a, _ in assoc if rng.random() < 0.95}
    used = {g for _, gs in assoc for g in gs}
    return dict(ia=ia, max=rng.choice([n, n + 1, max(n, 255), 1000, 65535]), assoc=assoc, dpts=dpts,
                explicit=[g for g in pool if g not in used], style=gen_style(rng))


def gen_value(rng, dpt):
    n = wire.DPT_BYTES[dpt]
    if n == 0:
        return rng.choice([0, 1, 0, 1, rng.randrange(64)])
    v = rng.choice([0, 1, (1 << 8 * n) - 1, rng.randrange(1 << 8 * n), rng.randrange(1 << 8 * n),
                    rng.randrange(1 << 8 * n)])
    if rng.random() < 0.3:      # the ends of the numbers of each exponent, and values without unused bits
        v = rng.choice(ENDS) if n == 2 else v & physical.known(dpt)
    return v


def gen_info(rng, room):
    """additional information of a frame which has that many octets left"""
    if rng.random() < 0.88:
        return b""
    sizes = [n for n in (4, 6, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 64, 127, 128, 200, 255) if n <= room]
    return make_info(rng, rng.choice(sizes)) if sizes else b""


def make_info(rng, size):
    """type, length and octets, again and again"""
    out = b""
    while len(out) < size:
        left = size - len(out)
        n = left - 2 if left < 6 or rng.random() < 0.4 else rng.choice([0, 1, 2, 4, left - 4])
        n = min(n, left - 2) if left - 2 - n != 1 else left - 2
        out += bytes([rng.choice([3, 4, 6, 7, 0x10, 0xFE]), n]) + bytes(rng.randrange(256) for _ in range(n))
    return out


def enlarged(rng, c):
    """a frame with more additional information than a USB report has room for"""
    if c[0] not in (wire.IND, wire.CON) or c[1] != 0 or len(c) < 9:
        return c
    info = make_info(rng, rng.choice([33, 64, 127, 128, 200, 255]))
    return c[:1] + bytes([len(info)]) + info + c[2:]


def again(rng, items, make, share=0.12):
    """what make() draws, or once more one of the items drawn so far, mostly the last one"""
    if items and rng.random() < share:
        return items[-1] if rng.random() < 0.6 else rng.choice(items)
    return make()


def gen_frame(rng, code, src, dst, tpdu, group=True):
    ctrl1 = rng.choice([0xBC, 0xBC, 0xB0, 0xB4, 0xB8, 0x9C, 0x8C, 0xAC])
    if rng.random() < 0.25:      # any priority, repetition, broadcast and acknowledge request
        ctrl1 = 0x80 | rng.choice([0, 0x20]) | rng.choice([0, 0x10, 0x10]) | rng.choice([0, 4, 8, 12]) | rng.choice([0, 0, 2])
        if rng.random() < 0.4:   # a short frame may come as an extended one too
            ctrl1 &= 0x7F
    if len(tpdu) > 16:
        ctrl1 &= 0x7F
    if code == wire.CON and rng.random() < 0.3:
        ctrl1 |= 1
    c = wire.cemi(code, src, dst, tpdu, group, ctrl1, rng.choice([6, 6, 6, 0, 7, 5, 1, 2, 3, 4]))
    info = gen_info(rng, 45 - len(c))      # what a USB report of 64 octets has room for
    return c[:1] + bytes([len(info)]) + info + c[2:]


def edge(rng, bits):
    """a number of so many bits, sometimes one at an edge"""
    if rng.random() < 0.9:
        return rng.randrange(1 << bits)
    return rng.choice([0, 0, 1, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, 0xFF, (1 << bits) - 256]) & ((1 << bits) - 1)


def some_bytes(rng, n):
    """octets, sometimes with zeros at an end"""
    data = bytes(rng.randrange(256) for _ in range(n))
    if rng.random() < 0.12:
        k = rng.randint(1, n)
        data = rng.choice([data[:n - k] + bytes(k), bytes(k) + data[k:], bytes([rng.choice([0, 0xFF, 0x0A, 0x30])]) * n])
    return data


def gen_group(rng, t, code=None):
    """a group frame; mostly for the addresses of the tables"""
    code = code or (wire.IND if rng.random() < 0.75 else wire.CON)
    model = wire.Tables(t)
    known = sorted(model.addresses())
    r = rng.random()
    if r < 0.85 and known:
        dst = rng.choice(known)
    elif r < 0.9:
        dst = t["ia"]
    elif r < 0.93:
        dst = 0
    else:
        dst = rng.randrange(1, 0x10000)
    dpts = [model.dpts[a] for a in model.asaps_of(dst) if a in model.dpts]
    n = wire.DPT_BYTES[rng.choice(dpts)] if dpts else rng.choice([0, 1, 2, 4])
    r = rng.random()
    if r < 0.65:
        apci = wire.GROUP_WRITE
    elif r < 0.85:
        apci = wire.GROUP_RESP
    else:
        apci, n = wire.GROUP_READ, 0
    if apci == wire.GROUP_READ:
        tpdu = wire.npdu(apci)
    elif n == 0:
        tpdu = wire.npdu(apci, rng.randrange(2) if rng.random() < 0.7 else rng.randrange(64))
    else:
        tpdu = wire.npdu(apci, edge(rng, 8 * n), n)
    src = rng.choice([0x1203, rng.randrange(1, 0x10000), t["ia"]]) if code == wire.IND else t["ia"]
    if rng.random() < 0.06:
        src = rng.choice([0, 0, 0xFFFF, 0xFF00, 0x00FF, dst])
    return gen_frame(rng, code, src, dst, tpdu)


def gen_property(rng, t, code=None):
    """a property frame of this device or of another one"""
    code = code or rng.choice([wire.IND, wire.IND, wire.CON])
    mine = rng.random() < 0.6
    other = rng.choice([0x1102, (t["ia"] + 1) & 0xFFFF, rng.randrange(1, 0x10000)])
    if other == t["ia"]:
        other ^= 0x0101
    if code == wire.IND:
        src, dst = (t["ia"], other if rng.random() < 0.5 else t["ia"]) if mine else (other, t["ia"])
    else:
        src, dst = (rng.choice([0, t["ia"]]), t["ia"]) if mine else (t["ia"], other)
    apci = rng.choice([wire.PROP_READ, wire.PROP_RESP, wire.PROP_RESP, wire.PROP_WRITE])
    data = b"" if apci == wire.PROP_READ else some_bytes(rng, rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10]))
    tpdu = wire.prop_tpdu(apci, edge(rng, 8), edge(rng, 8), edge(rng, 4), edge(rng, 12), data)
    return gen_frame(rng, code, src, dst, tpdu, group=False)


def gen_other(rng, t):
    """frames the stack has to ignore"""
    code = rng.choice([wire.IND, wire.CON])
    group = rng.random() < 0.5
    known = sorted(wire.Tables(t).addresses()) or [1]
    dst = rng.choice(known) if group else t["ia"]
    k = rng.randrange(9)
    if k == 6:    # T_Data_Tag_Group
        return gen_frame(rng, code, 0x1203, rng.choice(known), bytes([0x04]) + wire.npdu(wire.GROUP_WRITE, 1)[1:], True)
    if k == 0:    # T_Connect, T_Disconnect
        return gen_frame(rng, code, 0x1203, t["ia"], bytes([rng.choice([0x80, 0x81])]), False)
    if k == 1:    # T_Ack, T_Nak
        return gen_frame(rng, code, 0x1203, t["ia"], bytes([rng.choice([0xC2, 0xC3]) | (rng.randrange(16) << 2)]), False)
    if k == 2:    # numbered data
        return gen_frame(rng, code, t["ia"], t["ia"], bytes([0x43 | (rng.randrange(16) << 2), 0xD5 + rng.randrange(3), 0, 1, 0x10, 1]), False)
    if k == 3:    # other application services
        apci = rng.choice([0x300, 0x340, 0x380, 0x0C0, 0x100, 0x140, 0x280, 0x3D1, 0x3DC, rng.randrange(0xC0, 0x400)])
        if apci in (wire.PROP_READ, wire.PROP_RESP, wire.PROP_WRITE):
            group, dst = True, rng.choice(known)
        return gen_frame(rng, code, t["ia"], dst, wire.npdu(apci) + b"\0" * rng.choice([0, 2, 5]), group)
    if k in (4, 8):    # not an indication nor a confirmation of a frame
        code = rng.choice([wire.REQ, wire.REQ, 0x10, 0x13, 0x25, 0x2A, 0x2B, 0x2C, 0x2D, 0x2F, 0x39, 0x69, 0xA9, 0xF0, 0xF1, 0xFB, rng.randrange(256)])
        if code in (wire.IND, wire.CON):
            code = wire.REQ
        return gen_frame(rng, code, rng.choice([0x1203, t["ia"]]), dst, wire.npdu(wire.GROUP_WRITE, 1) if group else
                         wire.prop_tpdu(rng.choice([wire.PROP_READ, wire.PROP_RESP]), 0, 11, 1, 1), group)
    if k == 7:    # a group service for a device
        return gen_frame(rng, code, rng.choice([0x1203, t["ia"]]), t["ia"], wire.npdu(rng.choice([wire.GROUP_WRITE, wire.GROUP_RESP, wire.GROUP_READ]), 0), False)
    # other cEMI message codes
    return bytes([rng.choice([0x2B, 0xFB, 0xF5, 0xF0, 0x25, 0xF1, 0xF6, 0xF7, 0xFC])]) + bytes([0, 0, 0x0B, 1, 0x33, 0x10, 1, 0, 0x80])


def gen_cemi(rng, t, prop=0.15, other=0.1):
    r = rng.random()
    if r < prop:
        return gen_property(rng, t)
    if r < prop + other:
        return gen_other(rng, t)
    return gen_group(rng, t)


def gen_msg(rng, t, prop=0.2):
    """a request of the application, or None if the tables allow none"""
    model = wire.Tables(t)
    if rng.random() < prop:
        return gen_prop_msg(rng)
    ready = [a for a, g in t["assoc"] if g]
    writable = [a for a in ready if a in model.dpts]
    if writable and rng.random() < 0.75:
        a = rng.choice(writable)
        return {"m": "write", "asap": a, "value": gen_value(rng, model.dpts[a])}
    if ready:
        return {"m": "read", "asap": rng.choice(ready)}
    return gen_prop_msg(rng)


def gen_prop_msg(rng):
    m = {"m": rng.choice(["pread", "pwrite"]), "obj": edge(rng, 8), "pid": edge(rng, 8),
         "count": edge(rng, 4), "start": edge(rng, 12)}
    if m["m"] == "pwrite":
        m["data"] = some_bytes(rng, rng.choice([1, 2, 3, 4, 6, 7, 10])).hex()
    return m


def gen_clock(rng, case):
    """the date at the start, and when it is set, mostly near something that happens"""
    c = dict(epoch=rng.choice([1.7e9, 0.0, 2147483640.0, 4294967290.0, round(rng.uniform(1e9, 3e9), 3)]), boot=round(rng.choice([0.0, 4e5, rng.uniform(0, 1e7)]), 3),
             jumps=[])
    if rng.random() < 0.15:
        at = [o["t"] for o in case.get("ops", ()) if isinstance(o, dict) and "t" in o] or [0.0]
        for _ in range(rng.choice([1, 1, 2, 4])):
            c["jumps"].append([round(max(0.0, rng.choice(at) + rng.choice([0.0, -0.001, 0.5, 1.5])), 4),
                               rng.choice([-1.0, 1.0, -3600.0, 3600.0, -86400.0, 86400.0, -3e7, 3e7, 0.3, -0.3])])
    return c


def gen_net(rng):
    lat = rng.choice([0.001, 0.005, 0.02])
    return dict(latency=lat, jitter=rng.choice([0.0, 0.0, lat, 0.05, 0.3]), jseed=rng.randrange(1 << 30))


def gen_faults(rng, links, count, rate, kinds=("drop", "dup", "delay"), delays=(0.01, 0.2, 0.9, 1.1, 2.5, 3.2, 6.0)):
    """directives for about rate*count of the first `count` datagrams of each link, some in bursts"""
    out = []
    for link in links:
        n = 0
        while n < count:
            if rng.random() < rate:
                burst = rng.choice([1, 1, 1, 2, 3])
                kind = rng.choice(kinds)
                for k in range(burst):
                    f = {"link": link, "n": n + k, "kind": kind}
                    if kind != "drop":
                        f["arg"] = rng.choice(delays)
                    out.append(f)
                n += burst
            n += 1
    return out
