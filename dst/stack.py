"""Builds knx_stack objects from plain data and turns what it delivers into plain data.

Only the public interface of knx_stack is used."""
import sys
import types

from . import env, physical, wire

KS = None


def ks():
    global KS
    if KS is None:
        KS = env.load()
        _classes()
    return KS


_KINDS = {}
PROPERTIES = ("pread", "presponse", "pwrite")


def _classes():
    app = KS.layer.application
    for name, mod in (("write", app.a_group_value_write), ("response", app.a_group_value_response),
                      ("read", app.a_group_value_read), ("pwrite", app.a_property_value_write),
                      ("presponse", app.a_property_value_response), ("pread", app.a_property_value_read)):
        for kind in ("ind", "con"):
            _KINDS[getattr(mod, kind).Msg] = (name, kind)


def ga(x, style=0):
    """a group address; the ways to write it mean the same"""
    k = ks()
    if style & 8:
        return k.GroupAddress(two_level_style=k.address.TwoLevelStyle(main=x >> 11, sub=x & 0x7FF))
    if style & 16:
        return k.GroupAddress(three_level_style=k.address.ThreeLevelStyle(main=x >> 11, middle=(x >> 8) & 7, sub=x & 0xFF))
    return k.GroupAddress(free_style=x)


class Node:
    """The tables and State of one knx_stack user."""

    def __init__(self, cfg, medium, name="n"):
        k = ks()
        self.name = name
        self.cfg = cfg
        self.medium = medium
        self.model = wire.LiveTables(cfg)
        style = cfg.get("style", 0)      # the ways to fill the tables mean the same
        at = self.address_table = k.AddressTable(k.Address(cfg["ia"]), [ga(x) for x in cfg.get("explicit", [])],
                                                 cfg.get("max", 255))
        pairs = [(asap, [ga(x, style) for x in groups]) for asap, groups in cfg.get("assoc", [])]
        if style & 1:
            each = [k.Association(self.asap(asap), g) for asap, groups in pairs for g in groups]
            self.association_table = k.AssociationTable(at, iter(each) if style & 2 else each)
        else:
            self.association_table = k.AssociationTable(at, []) if not style & 2 else k.AssociationTable(at)
            for asap, groups in pairs:
                self.association_table.associate(self.asap(asap), groups)
        dpts = [(self.asap(int(a)), getattr(k.datapointtypes, d)) for a, d in cfg.get("dpts", {}).items()]
        if style & 4:
            self.group_objects = k.GroupObjectTable()
            for asap, d in dpts:
                self.group_objects.associate(asap, d)
        else:
            self.group_objects = k.GroupObjectTable(dict(dpts))
        self.new_state()

    @classmethod
    def sharing(cls, other, medium, name="n"):
        """another State on the tables of a node"""
        n = cls.__new__(cls)
        n.__dict__.update(other.__dict__, name=name, medium=medium)
        n.new_state()
        return n

    def asap(self, v):
        return ks().ASAP(v, "asap %d" % v)

    # --- operations on the tables, and on the model of them
    def apply(self, op):
        """-> (must fail, exception or None); None if the operation is not applicable"""
        k = op["do"]
        m = self.model
        if not self.applicable(op):
            return None
        refused = False
        broken = False
        try:
            if k in ("associate", "disassociate"):
                if op.get("fail_at") is not None:
                    raise wire.Refused("iteration fails")
                getattr(m, k)(op["asap"], op["groups"])
            elif k in ("add", "remove"):
                getattr(m, k)(op["group"])
            elif k == "dpt":
                m.dpts[op["asap"]] = op["name"]
                self.cfg["dpts"][str(op["asap"])] = op["name"]
            elif k == "undpt":
                if op["asap"] not in m.dpts:
                    raise wire.Refused("no datapoint")
                del m.dpts[op["asap"]]
            elif k == "ia":
                m.ia = op["ia"]
        except wire.Refused:
            refused = True
        try:
            if k in ("associate", "disassociate"):
                groups = [ga(x) for x in op["groups"]]
                if op.get("fail_at") is not None:
                    groups = failing(groups, op["fail_at"])
                elif op.get("lazy"):
                    groups = iter(groups)
                try:
                    getattr(self.association_table, k)(self.asap(op["asap"]), groups)
                finally:
                    if op.get("reuse") and isinstance(groups, list):
                        groups[:] = [ga(x) for x in op["reuse"]]      # the caller goes on with its list
            elif k in ("add", "remove"):
                getattr(self.address_table, k)(ga(op["group"]))
            elif k == "dpt":
                self.group_objects.associate(self.asap(op["asap"]), getattr(ks().datapointtypes, op["name"]))
            elif k == "undpt":
                self.group_objects.disassociate(self.asap(op["asap"]))
            elif k == "ia":
                self.address_table.individual_address = ks().Address(op["ia"])
        except Exception as e:
            broken = e
        if m.open:
            m.resync({a.free_style for a in self.address_table.addresses})
        return refused, broken or None

    def applicable(self, op):
        """operations whose effect is not stated are left out"""
        k = op["do"]
        m = self.model
        if k == "remove":
            return not m.asaps_of(op["group"])     # an associated address is not to be removed
        keep = self.cfg.get("keep", [])
        if k == "associate":
            mine = m.of(op["asap"]) or []
            # a pair associated twice: left open
            return len(set(op["groups"])) == len(op["groups"]) and not set(mine) & set(op["groups"]) and op["asap"] != 0
        if k == "disassociate" and op["asap"] in keep:
            return bool(set(m.of(op["asap"]) or []) - set(op["groups"]))
        if k in ("dpt", "undpt"):
            return op["asap"] not in keep
        return True

    def new_state(self):
        k = ks()
        if self.medium == "ip":
            self.state = k.knxnet_ip.State(k.Medium.knxnet_ip, self.association_table, self.group_objects)
        else:
            self.state = k.State(k.Medium.usb_hid, self.association_table, self.group_objects)
        return self.state

    def dpt(self, name, value, salt=0):
        if self.cfg.get("style", 0) & 64:       # made of what it means
            meaning = physical.description(name, value, salt)
            if meaning is not None and salt % 3:
                return ks().datapointtypes.DPT_Factory().make(name, meaning)
            if meaning is not None:             # an application goes on with the datapoint it has
                d = getattr(ks().datapointtypes, name)()
                d.value = physical.known(name)
                for field, v in meaning.items():
                    d.encode(v) if field == "decoded_value" else setattr(d, field, v)
                return d
        d = getattr(ks().datapointtypes, name)()
        d.value = value
        return d

    def message(self, m):
        """plain request -> request of knx_stack; an application may use the same object again"""
        if not self.cfg.get("style", 0) & 32:
            return self.new_message(m)
        key = (repr(m), m["m"] == "write" and self.cfg["dpts"].get(str(m["asap"])))
        made = self.__dict__.setdefault("made", {})
        if key not in made:
            made[key] = self.new_message(m)
        return made[key]

    def new_message(self, m):
        k = ks()
        app = k.layer.application
        if m["m"] == "write":
            name = self.cfg["dpts"][str(m["asap"])]
            return app.a_group_value_write.req.Msg(asap=self.asap(m["asap"]), dpt=self.dpt(name, m["value"], m["asap"]))
        if m["m"] == "read":
            return app.a_group_value_read.req.Msg(asap=self.asap(m["asap"]))
        if m["m"] == "pread":
            return app.a_property_value_read.req.Msg(asap=0, object_index=m["obj"], property_id=m["pid"],
                                                     number_of_elements=m["count"], start_index=m["start"])
        if m["m"] == "pwrite":
            return app.a_property_value_write.req.Msg(asap=0, object_index=m["obj"], property_id=m["pid"],
                                                      number_of_elements=m["count"], start_index=m["start"],
                                                      data=m["data"])
        raise KeyError(m["m"])


def snapshot(node):
    """all that can be asked of the tables"""
    at, ass = node.address_table, node.association_table
    try:
        tsaps = list(at.tsaps)
        return {"addresses": [a.free_style for a in at.addresses], "tsaps": tsaps,
                "individual address": at.individual_address.free_style,
                "addresses by tsap": [at.get_address(t).free_style for t in tsaps],
                "known ASAPs": [a.value for a in ass.asaps],
                "tsaps by ASAP": [(a.value, ass.get_tsaps(a)) for a in ass.asaps],
                "ASAPs by tsap": [(t, [a.value for a in ass.get_asaps(t)]) for t in tsaps],
                "free ASAP value": ass.get_free_asap_value(),
                "datapoint types": [(a.value, d.__name__) for a, d in node.group_objects.associations]}
    except Exception as e:
        return {"tables (not readable)": repr(e)}


def refused(node, op):
    """a call which cannot succeed; -> (did it fail, as it does?)"""
    k = ks()
    app = k.layer.application
    asap = node.asap(op["asap"])
    what = op["what"]
    try:
        if what == "write":
            msg = app.a_group_value_write.req.Msg(asap=asap, dpt=node.dpt(op["name"], op.get("value", 0)))
        elif what == "read":
            msg = app.a_group_value_read.req.Msg(asap=asap)
        elif what == "nothing":
            msg = app.a_group_value_write.req.Msg(asap=asap, dpt=None)
        elif what == "data":
            msg = app.a_property_value_write.req.Msg(asap=0, object_index=1, property_id=2, number_of_elements=1, start_index=1, data=op["data"])
        elif what == "address":
            msg = getattr(k.knxnet_ip.core, op["service"]).req
            msg = msg.Msg("not an address", 1) if op["service"] != "connect" else msg.Msg("10.0.0.2", 5544, "not an address", 1)
        elif what == "object":
            msg = object()
        elif what == "con":
            msg = app.a_group_value_write.con.Msg(asap=asap, dpt=node.dpt(op["name"], 0), status=0)
        else:
            raise KeyError(what)
    except Exception as e:
        return "making the message failed: %r" % (e,)
    try:
        k.encode_msg(node.state, msg)
    except Exception:
        return None
    return "it was encoded"


class Failing(Exception):
    pass


def failing(items, at):
    """an iterable which fails"""
    for i, x in enumerate(items):
        if i == at:
            break
        yield x
    raise Failing("iteration fails")


def spoil(node, built, spoilt):
    """a list of messages in which one cannot be encoded, or which fails there"""
    at, what = spoilt
    if what == "raise":
        return failing(list(built), at)
    k = ks()
    app = k.layer.application
    bad = {"write": lambda: app.a_group_value_write.req.Msg(asap=node.asap(60001), dpt=node.dpt("DPT_Switch", 1)),
           "read": lambda: app.a_group_value_read.req.Msg(asap=node.asap(60001)),
           "object": object}[what]()
    built = list(built)
    return built[:at] + [bad] + built[at:]


def expected_request(model, m):
    """The semantic content of the L_Data.req for a plain request (model side)."""
    if m["m"] == "write":
        n = wire.DPT_BYTES[model.dpts[m["asap"]]]
        if n == 0:
            return ("group", model.first(m["asap"]), wire.GROUP_WRITE | (m["value"] & 0x3F), "")
        return ("group", model.first(m["asap"]), wire.GROUP_WRITE, int(m["value"]).to_bytes(n, "big").hex())
    if m["m"] == "read":
        return ("group", model.first(m["asap"]), wire.GROUP_READ, "")
    apci = wire.PROP_READ if m["m"] == "pread" else wire.PROP_WRITE
    data = bytes.fromhex(m.get("data", "")) if m["m"] == "pwrite" else b""
    return ("ind", model.ia, apci, wire.prop_tpdu(apci, m["obj"], m["pid"], m["count"], m["start"], data)[2:].hex())


def request_content(c, code=wire.REQ):
    """The same, out of the bytes of a cEMI frame; None if it is not a well formed L_Data.req."""
    f = wire.parse_cemi(c)
    if f is None or f["code"] != code or f["tpci"] != 0 or "apci" not in f or not f["ctrl1"] & 0x80:
        return None
    return ("group" if f["group"] else "ind", f["dst"], f["apci"], f["data"].hex())


def is_message(x):
    """is it one of the messages of the stack (and not a State, a list, None)?"""
    return isinstance(x, tuple) and hasattr(x, "_fields")


def messages(result):
    """what decode_msg returned, an iterable of messages; anything else is an error of the decoder"""
    out = list(result)
    for x in out:
        if not is_message(x):
            raise TypeError("%r is no message" % (x,))
    return out


def number(status):
    return getattr(status, "value", status)


def plain(msg, model):
    """A delivered message -> tuple comparable with wire.expected_messages, or None if it is not for the application"""
    kind = _KINDS.get(msg.__class__)
    if kind is None:
        return None
    repr(msg)       # an application prints it
    service, way = kind
    status = getattr(msg, "status", None)
    status = int(status) if status is not None else None
    if service in ("write", "response", "read"):
        name = msg.dpt.__class__.__name__
        value = None
        if service != "read":
            value = msg.dpt.value
            if wire.DPT_BYTES.get(name, 1) == 0:
                value &= 0x3F
            wrong = physical.wrong(msg.dpt, name, value) if name in wire.DPT_BYTES else None
            if wrong:
                return (service, way, msg.asap.value, value, status, wrong)
        if model is not None and model.dpts.get(msg.asap.value) != name:
            name = "!" + name
            return (service, way, msg.asap.value, value, status, name)
        return (service, way, msg.asap.value, value, status)
    data = getattr(msg, "data", None)
    if data is not None and service != "pread":
        data = str(data).lower()
    else:
        data = None
    return (service, way, msg.object_index, msg.property_id, msg.number_of_elements, msg.start_index, data, status)


def plain_control(msg):
    """A connection state or disconnect response -> ("cstate", status) or ("disc", status, channel), else None"""
    core = ks().knxnet_ip.core
    if isinstance(msg, core.connectionstate.res.Msg):
        return ("cstate", number(msg.status))
    if isinstance(msg, core.disconnect.res.Msg):
        return ("disc", number(msg.status), msg.communication_channel_id)
    return None


def plain_feature(msg):
    """A report of the USB interface on itself -> ("feature", "connection" or "emi", value), else None"""
    name = type(msg).__name__
    if name == "ConnectionStatus":
        return ("feature", "connection", msg.status)
    if name == "EMIType":
        return ("feature", "emi", msg.type)
    return None


def ack(state, result):
    """what an application answers to a tunnelling request; -> octets of the acks"""
    k = ks()
    out = []
    for r in result or ():
        if isinstance(r, k.knxnet_ip.tunneling.req.Msg) and r.status == k.knxnet_ip.ErrorCodes.E_NO_ERROR:
            m = k.knxnet_ip.tunneling.ack.Msg(sequence_counter=r.sequence_counter, status=r.status)
            out.append(bytes.fromhex(str(k.encode_msg(state, m))))
    return out


def same(expected, got):
    """multiset equality; a None value in an expected group message matches any value"""
    if len(expected) != len(got):
        return False
    rest = list(got)
    for e in expected:
        for g in rest:
            if len(e) == len(g) and all(a == b or (i == 3 and a is None and e[0] in ("write", "response", "read"))
                                        for i, (a, b) in enumerate(zip(e, g))):
                rest.remove(g)
                break
        else:
            return False
    return True


class Tap:
    """Records what the decoders of knx_stack return to their callers outside of them.

    The code of the functions is replaced, so that every reference to them is tapped, however it was made."""

    def __init__(self):
        self.nodes = {}
        self.keep = []
        self.depth = 0
        self.default = None

    def __enter__(self):
        k = ks()
        entries = [k.decode_msg]
        for path in ("decode.knxnet_ip.header", "decode.usb_hid.report_header.report_identifier"):
            mod = sys.modules.get("knx_stack." + path)
            if callable(getattr(mod, "decode", None)):
                entries.append(mod.decode)
        self.undo = []
        for f in entries:
            self.patch(f)
        return self

    def patch(self, f):
        if isinstance(f, types.FunctionType) and not f.__code__.co_freevars:
            code = f.__code__
            copy = types.FunctionType(code, f.__globals__, f.__name__, f.__defaults__, f.__closure__)
            copy.__kwdefaults__ = f.__kwdefaults__
            hook = "_dst_tap_%d" % id(f)
            f.__globals__[hook] = lambda a, kw: self.call(copy, a, kw)
            scope = {}
            exec("def tapped(*a, **kw):\n return %s(a, kw)\n" % hook, scope)
            f.__code__ = scope["tapped"].__code__

            def undo():
                f.__code__ = code
                f.__globals__.pop(hook, None)
            self.undo.append(undo)
            return

        # a callable object: only its names in the modules
        def replacement(*a, **kw):
            return self.call(f, a, kw)
        for name, mod in list(sys.modules.items()):
            if name == "knx_stack" or name.startswith("knx_stack."):
                for key, value in list(vars(mod).items()):
                    if value is f:
                        setattr(mod, key, replacement)
                        self.undo.append(lambda mod=mod, key=key: setattr(mod, key, f))

    def call(self, original, a, kw):
        state = a[0] if a else next(iter(kw.values()), None)
        node = self.nodes.get(id(state), self.default) if self.depth == 0 else None
        self.depth += 1
        try:
            result = original(*a, **kw)
            if hasattr(result, "__next__"):
                result = list(result)
        except BaseException as e:
            if node is not None:
                node.on_decode_error(e)
            raise
        finally:
            self.depth -= 1
        if node is not None:
            node.on_decoded(result)
        return result

    def add(self, state, sink):
        self.nodes[id(state)] = sink
        self.keep.append(state)

    def __exit__(self, *a):
        for undo in reversed(self.undo):
            undo()
