"""Byte codec of KNXnet/IP, cEMI and the KNX USB HID reports, written from the
specifications and independent of the code under test (it imports nothing of it)."""
import struct

SEARCH_REQ, SEARCH_RES = 0x0201, 0x0202
CONNECT_REQ, CONNECT_RES = 0x0205, 0x0206
CSTATE_REQ, CSTATE_RES = 0x0207, 0x0208
DISC_REQ, DISC_RES = 0x0209, 0x020A
TUN_REQ, TUN_ACK = 0x0420, 0x0421

REQ, IND, CON = 0x11, 0x29, 0x2E

GROUP_READ, GROUP_RESP, GROUP_WRITE = 0x000, 0x040, 0x080
PROP_READ, PROP_RESP, PROP_WRITE = 0x3D5, 0x3D6, 0x3D7

DPT_BYTES = {  # 0: the value is in the APCI octet
    "DPT_Switch": 0, "DPT_Alarm": 0, "DPT_UpDown": 0, "DPT_Start": 0, "DPT_Info_Switch": 0,
    "DPTVimarScene": 1, "DPT_SceneControl": 1, "DPT_Control_Dimming": 1, "DPT_Brightness": 1,
    "DPT_Value_Wsp": 2, "DPT_Value_Temp": 2, "DPT_Value_Lux": 2, "DPT_Float_16": 2,
    "DPTSetupClima": 4, "DPTInfoClimaReport": 4, "DPT_Float_32": 4, "DPT_Value_Power": 4,
}


def frame(service, body):
    return struct.pack("!BBHH", 6, 0x10, service, 6 + len(body)) + body


def parse(data):
    """-> (service, body) or None when it is not a KNXnet/IP 1.0 frame"""
    if len(data) < 6 or data[0] != 6 or data[1] != 0x10:
        return None
    service, total = struct.unpack("!HH", data[2:6])
    return service, data[6:]


def total_length_ok(data):
    return len(data) >= 6 and struct.unpack("!H", data[4:6])[0] == len(data)


def ip4(addr):
    return bytes(int(x) for x in addr.split("."))


def hpai(addr, port):
    return bytes([8, 1]) + ip4(addr) + struct.pack("!H", port)


def tun_req(channel, seq, cemi):
    return frame(TUN_REQ, bytes([4, channel, seq, 0]) + cemi)


def tun_ack(channel, seq, status=0):
    return frame(TUN_ACK, bytes([4, channel, seq, status]))


def connect_res(channel, status, addr, port, ia=0xFFFF):
    if status:
        return frame(CONNECT_RES, bytes([channel, status]))
    return frame(CONNECT_RES, bytes([channel, 0]) + hpai(addr, port) + bytes([4, 4]) + struct.pack("!H", ia))


def connect_res_refused_long(status, addr, port):
    return frame(CONNECT_RES, bytes([0, status]) + hpai(addr, port) + bytes([4, 4, 0, 0]))


def search_res(addr, port, medium, status, ia, name="KNX IP"):
    dib1 = bytes([0x36, 1, medium, status]) + struct.pack("!H", ia) + bytes(2) + bytes(6) + ip4("0.0.0.0") + bytes(6)
    dib1 += name.encode("latin1")[:29].ljust(30, b"\0")
    dib2 = bytes([8, 2, 2, 1, 3, 1, 4, 1])
    return frame(SEARCH_RES, hpai(addr, port) + dib1 + dib2)


def npdu(apci, data=None, nbytes=0, tpci=0):
    """TPCI/APCI octets and data. nbytes == 0: the (6 bit) data is in the APCI octet."""
    if nbytes == 0:
        return bytes([tpci | (apci >> 8), (apci & 0xFF) | ((data or 0) & 0x3F)])
    return bytes([tpci | (apci >> 8), apci & 0xFF]) + int(data).to_bytes(nbytes, "big")


def cemi(code, src, dst, tpdu, group=True, ctrl1=0xBC, hops=6, info=b""):
    ctrl2 = (0x80 if group else 0) | (hops << 4)
    return bytes([code, len(info)]) + info + bytes([ctrl1, ctrl2]) + struct.pack("!HHB", src, dst, len(tpdu) - 1) + tpdu


def parse_cemi(c):
    """-> dict or None"""
    try:
        code, n = c[0], c[1]
        b = c[2 + n:]
        ctrl1, ctrl2, src, dst, length = struct.unpack("!BBHHB", b[:7])
        tpdu = b[7:]
        if len(tpdu) != length + 1 or len(c) < 2 + n:
            return None
        d = dict(code=code, ctrl1=ctrl1, ctrl2=ctrl2, src=src, dst=dst, group=bool(ctrl2 & 0x80), length=length,
                 tpci=tpdu[0] & 0xFC, info=c[2:2 + n], tpdu=tpdu)
        if length >= 1:
            d["apci"] = ((tpdu[0] & 3) << 8) | tpdu[1]
            d["data"] = tpdu[2:]
        return d
    except (IndexError, struct.error):
        return None


def prop_tpdu(apci, obj, pid, count, start, data=b""):
    return bytes([apci >> 8, apci & 0xFF, obj, pid, (count << 4) | (start >> 8), start & 0xFF]) + data


def usb_report(c):
    """A KNX USB HID report carrying one cEMI frame (without padding)"""
    body = bytes([1, 3, 0, 0]) + c
    head = bytes([0, 8]) + struct.pack("!H", len(body) - 4)
    return bytes([1, 0x13, len(head) + len(body)]) + head + body


# bus access server: services and features, and what their values mean
FEATURE_RESPONSE, FEATURE_INFO = 2, 4
FEATURES = {3: ("connection", {0: "Disconnected", 1: "Connected"}), 5: ("emi", {1: "emi1", 2: "emi2", 3: "cEMI"})}


def usb_feature(service, feature, data, manufacturer=0):
    """A KNX USB HID report of the bus access server of the interface (without padding)"""
    body = bytes([0x0F, service]) + struct.pack("!H", manufacturer) + bytes([feature]) + data
    head = bytes([0, 8]) + struct.pack("!H", len(body) - 4)
    return bytes([1, 0x13, len(head) + len(body)]) + head + body


def parse_feature(r):
    """-> the message the report asks for, [] if none, None if it is no feature report"""
    if len(r) < 12 or r[0] != 1 or r[1] & 0x0F != 3 or len(r) < 3 + r[2] or r[3] != 0 or r[4] != 8 or r[7] != 0x0F:
        return None
    n = struct.unpack("!H", r[5:7])[0]
    body = r[11:11 + n]
    if r[8] not in (FEATURE_RESPONSE, FEATURE_INFO) or r[9:11] != b"\0\0" or len(body) < 2 or r[2] != 8 + n:
        return []
    name, values = FEATURES.get(body[0], (None, {}))
    return [("feature", name, values[body[1]])] if body[1] in values else []


def parse_usb(r):
    """-> cEMI bytes, or None if the report is not a consistent KNX tunnel packet"""
    if len(r) < 11 or r[0] != 1 or r[1] & 0x0F != 3:
        return None
    n = r[2]
    p = r[3:3 + n]
    if len(p) != n or any(r[3 + n:]):
        return None
    if p[0] != 0 or p[1] != 8:
        return None
    blen = struct.unpack("!H", p[2:4])[0]
    if p[4] != 1 or p[5] != 3 or p[6] or p[7] or len(p) != 8 + blen:
        return None
    return p[8:]


class Tables:
    """Reference model of the routing configuration."""

    def __init__(self, cfg):
        self.ia = cfg["ia"]
        self.max = cfg.get("max", 255)
        self.assoc = [[a, list(g)] for a, g in cfg.get("assoc", [])]  # insertion order
        self.explicit = list(cfg.get("explicit", []))
        self.dpts = {int(k): v for k, v in cfg.get("dpts", {}).items()}

    def addresses(self):
        s = set(self.explicit)
        for _, g in self.assoc:
            s.update(g)
        return s

    def asaps_of(self, address):
        return [a for a, g in self.assoc if address in g]

    def first(self, asap):
        for a, g in self.assoc:
            if a == asap and g:
                return g[0]
        return None


def expected_messages(tables, c):
    """What a cEMI frame must deliver: a list of tuples, or None if it is left open.

    group:    ("write"|"response"|"read", "ind"|"con", asap, value or None, status or None)
    property: ("pread"|"presponse"|"pwrite", "ind"|"con", obj, pid, count, start, data or None, status or None)
    """
    f = parse_cemi(c)
    if f is None:
        return None
    if f["code"] not in (IND, CON):
        return []
    kind = "ind" if f["code"] == IND else "con"
    status = (f["ctrl1"] & 1) if kind == "con" else None
    if f["tpci"] != 0 or "apci" not in f:
        return []
    apci = f["apci"]
    if f["group"]:
        if f["dst"] == 0:
            return []
        if apci & 0x3C0 == GROUP_READ:
            if apci:
                return None
            service = "read"
        elif apci & 0x3C0 == GROUP_RESP:
            service = "response"
        elif apci & 0x3C0 == GROUP_WRITE:
            service = "write"
        else:
            return []
        out = []
        for asap in tables.asaps_of(f["dst"]):
            dpt = tables.dpts.get(asap)
            if dpt is None:
                continue
            n = DPT_BYTES[dpt]
            if service == "read" or len(f["data"]) != n:
                value = None
            elif n == 0:
                value = apci & 0x3F
            else:
                value = int.from_bytes(f["data"], "big")
            out.append((service, kind, asap, value, status))
        return out
    services = {PROP_READ: "pread", PROP_RESP: "presponse", PROP_WRITE: "pwrite"}
    if apci not in services:
        return []
    mine = f["src"] == tables.ia if kind == "ind" else f["dst"] == tables.ia
    if not mine:
        return []
    d = f["data"]
    if len(d) < 4:
        return None
    obj, pid, count, start = d[0], d[1], d[2] >> 4, ((d[2] & 0xF) << 8) | d[3]
    data = d[4:].hex() if services[apci] != "pread" else None
    return [(services[apci], kind, obj, pid, count, start, data, status)]


class Refused(Exception):
    """the operation has to fail"""


class LiveTables(Tables):
    """The reference model with the operations on the tables."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.held = self.addresses()
        self.open = set()        # addresses whose being held is left open
        self.failing = False

    def addresses(self):
        return set(self.held) if hasattr(self, "held") else super().addresses()

    def of(self, asap):
        for a, g in self.assoc:
            if a == asap:
                return g
        return None

    def associate(self, asap, groups):
        new = set(groups) - self.held
        if len(self.held) + len(new) > self.max:
            raise Refused("no room")
        self.held |= new
        if self.of(asap) is None:
            self.assoc.append([asap, []])
        self.of(asap).extend(groups)

    def disassociate(self, asap, groups):
        mine = self.of(asap)
        if mine is None:
            raise Refused("unknown asap")
        rest = list(mine)
        for g in groups:
            if g not in rest:
                raise Refused("not associated")
            rest.remove(g)
        mine[:] = rest
        for g in groups:
            if not any(g in x for _, x in self.assoc):
                if g in self.explicit:
                    self.open.add(g)
                else:
                    self.held.discard(g)

    def add(self, g):
        if g not in self.held and len(self.held) >= self.max:
            raise Refused("no room")
        self.held.add(g)
        if g not in self.explicit:
            self.explicit.append(g)

    def remove(self, g):
        if g not in self.held:
            raise Refused("no such address")
        self.held.discard(g)
        if g in self.explicit:
            self.explicit.remove(g)

    def resync(self, real):
        """an explicitly added address whose last association ended may be held or not"""
        for g in list(self.open):
            if g not in real:
                self.held.discard(g)
                if g in self.explicit:
                    self.explicit.remove(g)
            self.open.discard(g)
