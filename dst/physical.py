"""What the values of the datapoint types mean to an application: its own model of the fields and numbers,
written from the datapoint formats and independent of the code under test."""
import math
import struct

FUNZIONAMENTO = {0: "off", 1: "forced_off", 2: "off_a_tempo", 3: "antigelo", 4: "riduzione_notturna",
                 5: "riduzione_notturna_a_tempo", 6: "manuale", 7: "manuale_a_tempo", 8: "automatico",
                 14: "automatico_invio_temperatura_disabilitato"}
STAGIONE = {0: "inverno", 1: "estate"}
OFF_ON = {0: "off", 1: "on"}
ANY = None      # a number
# name: [(field, first bit, bits, names)], fields without names are numbers
FIELDS = {
    "DPT_Switch": [("action", 0, 1, OFF_ON)],
    "DPT_Info_Switch": [("action", 0, 1, OFF_ON)],
    "DPT_Alarm": [("action", 0, 1, {0: "no_alarm", 1: "alarm"})],
    "DPT_UpDown": [("direction", 0, 1, {0: "up", 1: "down"})],
    "DPT_Start": [("action", 0, 1, {0: "stop", 1: "start"})],
    "DPTVimarScene": [("index", 0, 6, ANY),
                      ("command", 6, 2, {0: "attiva", 1: "cancella", 2: "memorizza", 3: "identifica"})],
    "DPT_SceneControl": [("number", 0, 6, ANY), ("command", 7, 1, {0: "activate", 1: "learn"})],
    "DPT_Control_Dimming": [("step", 0, 3, ANY), ("direction", 3, 1, {0: "down", 1: "up"})],
    "DPT_Brightness": [("value", 0, 8, ANY)],
    "DPTSetupClima": [("temporizzazione", 0, 8, ANY), ("setpoint", 8, 8, ANY), ("differenziale", 16, 5, ANY),
                      ("variazione_setpoint", 21, 2, ANY), ("unita_misura", 23, 1, {0: "celsius", 1: "farenheit"}),
                      ("funzionamento", 24, 4, FUNZIONAMENTO), ("centralizzato", 28, 1, ANY),
                      ("stagione", 29, 1, STAGIONE), ("terziario", 30, 1, ANY)],
    "DPTInfoClimaReport": [("temperatura", 0, 9, 10.0), ("setpoint", 16, 8, ANY),
                           ("funzionamento", 24, 4, FUNZIONAMENTO), ("stagione", 29, 1, STAGIONE)],
}
FLOAT_16 = ("DPT_Float_16", "DPT_Value_Wsp", "DPT_Value_Temp", "DPT_Value_Lux")
FLOAT_32 = ("DPT_Float_32", "DPT_Value_Power")


def number(name, value):
    """the number of a float datapoint, None if it has none"""
    if name in FLOAT_16:
        if value == 0x7FFF:
            return None         # invalid data
        m, e = value & 0x7FF, value >> 11 & 15
        return (m - 2048 if value & 0x8000 else m) * 2 ** e / 100
    x = struct.unpack("!f", struct.pack("!I", value))[0]
    return None if math.isnan(x) else x


def fields(name, value):
    """{field: name or number} of the fields whose meaning is known"""
    out = {}
    for field, first, bits, names in FIELDS[name]:
        v = value >> first & (1 << bits) - 1
        if isinstance(names, dict):
            if v not in names:
                continue
            v = names[v]
        elif names is not None:
            v = v / names
        out[field] = v
    return out


def known(name):
    """the bits which have a meaning"""
    if name not in FIELDS:
        return 0xFFFF if name in FLOAT_16 else 0xFFFFFFFF
    out = 0
    for _, first, bits, _ in FIELDS[name]:
        out |= (1 << bits) - 1 << first
    return out


def description(name, value, salt=0):
    """the fields from which an application builds that very value; None if there is more than one value (or none)
    with these fields"""
    if name in FIELDS:
        if len(fields(name, value)) != len(FIELDS[name]):
            return None
        return fields(name, value) if not value & ~known(name) else None
    x = number(name, value)
    if x is None:
        return None
    if name in FLOAT_16:
        m, e = value & 0x7FF, value >> 11 & 15
        size = 2048 - m if value & 0x8000 else m
        if size == 2048 or e and size < 1024 + (x < 0):     # -20.48 is 2048 and 2 * 1024
            return None
        if not size:
            x = [0, -0.0, 0.0, -0.001][salt % 4]
        elif salt % 4 == 3:
            x += math.copysign(0.001 * 2 ** e, x)       # nearest to that value, and that value when cut off
    return {"decoded_value": x}


def wrong(dpt, name, value):
    """what an application reads of a datapoint which carries that value; -> None or what is wrong with it"""
    if name in FIELDS:
        for field, v in fields(name, value).items():
            seen = getattr(dpt, field)
            if (seen.name if isinstance(v, str) and hasattr(seen, "name") else seen) != v:
                return "%s %s is %r, not %r" % (name, field, seen, v)
    elif number(name, value) is not None:
        seen, x = dpt.decode(), number(name, value)
        if not (seen == x or abs(seen - x) <= 1e-9 * abs(x)):
            return "%s decodes to %r, not %r" % (name, seen, x)
    return None
