"""Independent reference: SunSpec types, layout, scaling, document writers, CRC-16.

Shares no code with /repo. All functions work on plain Python data (see gen.py for the
shape of definitions and devices).
"""
import math, struct
import xml.etree.ElementTree as ET

# type: (registers, struct code or kind, set of marker predicates)
NAT = {
    "int16": (1, "h"), "uint16": (1, "H"), "count": (1, "H"), "acc16": (1, "H"),
    "enum16": (1, "H"), "bitfield16": (1, "H"), "pad": (1, "h"),
    "int32": (2, "i"), "uint32": (2, "I"), "acc32": (2, "I"), "enum32": (2, "I"),
    "bitfield32": (2, "I"), "ipaddr": (2, "I"),
    "int64": (4, "q"), "uint64": (4, "Q"), "acc64": (4, "Q"),
    "float32": (2, "f"), "sunssf": (1, "h"),
    "ipv6addr": (8, "ipv6"), "eui48": (4, "eui48"), "string": (None, "string"),
}
ALL_TYPES = sorted(NAT)
INT_TYPES = [t for t in ALL_TYPES if NAT[t][1] in "hHiIqQ" and len(NAT[t][1]) == 1]
VALUE_TYPES = [t for t in ALL_TYPES if t not in ("pad", "sunssf")]
SCALABLE = ["int16", "uint16", "count", "acc16", "int32", "uint32", "acc32", "int64", "uint64", "acc64"]

MARKER = {
    "int16": 0x8000, "uint16": 0xffff, "count": 0xffff, "acc16": 0, "enum16": 0xffff,
    "bitfield16": 0xffff, "pad": 0x8000, "int32": 0x80000000, "uint32": 0xffffffff, "acc32": 0,
    "enum32": 0xffffffff, "bitfield32": 0xffffffff, "ipaddr": 0, "int64": 1 << 63,
    "uint64": (1 << 64) - 1, "acc64": 0, "float32": 0x7fc00000, "sunssf": 0x8000,
}


def width(ptype, plen=None):
    return plen if plen is not None else NAT[ptype][0]


def marker_bytes(ptype, plen=None):
    w = width(ptype, plen)
    if ptype == "eui48":
        return b"\x00\x00" + b"\xff" * 6
    if ptype in ("ipv6addr", "string"):
        return b"\x00" * (2 * w)
    return MARKER[ptype].to_bytes(2 * w, "big")


def int_range(ptype):
    w, c = NAT[ptype]
    bits = 16 * w
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if c.islower() else (0, (1 << bits) - 1)


def decode(ptype, raw):
    """Value of the registers `raw` as SunSpec defines it; None if not implemented."""
    c = NAT[ptype][1]
    if c == "string":
        if not raw or raw[0] == 0:
            return None
        return raw.decode("latin-1")[:1] + raw.decode("latin-1")[1:].rstrip("\0")
    if c == "ipv6":
        if raw == b"\0" * 16:
            return None
        h = raw.hex().upper()
        return ":".join(h[i:i + 8] for i in range(0, 32, 8))
    if c == "eui48":
        if raw == b"\0" * 8 or raw[2:] == b"\xff" * 6:
            return None
        return ":".join("%02X" % b for b in raw[2:8])
    v = struct.unpack(">" + c, raw)[0]
    if c == "f":
        return None if v != v else v
    if int.from_bytes(raw, "big") == MARKER[ptype]:
        return None
    return v


def f32(v):
    return struct.unpack(">f", struct.pack(">f", v))[0]


def f32_next(v):
    """A neighbour of v among the float32 values, None if that is no number."""
    i = struct.unpack(">I", struct.pack(">f", v))[0]
    n = struct.unpack(">f", struct.pack(">I", i + 1))[0] if i != 0xffffffff else v
    return n if abs(n) < float("inf") and n == n else None


def encode(ptype, value, plen=None):
    """Registers of a (raw) value. Strings are NUL padded or cut to the field."""
    w = width(ptype, plen)
    c = NAT[ptype][1]
    if c == "string":
        b = value.encode("latin-1")
        return b[:2 * w] + b"\0" * (2 * w - len(b))
    if c == "ipv6":
        return bytes.fromhex(value.replace(":", ""))
    if c == "eui48":
        return b"\0\0" + bytes.fromhex(value.replace(":", ""))
    return struct.pack(">" + c, value)


# ------------------------------------------------------------------------------ definitions

def pw(p):
    """register width of a point of a definition"""
    return width(p["type"], p.get("len"))


def is_value_point(p):
    return p["type"] not in ("pad", "sunssf")


def def_len(d):
    n = d["fixed"]["len"] if d.get("fixed") else 0
    if d.get("repeating"):
        n += d["repeating"]["len"]
    return n


def layout(d, length):
    """Blocks of a model of this definition and reported length.

    -> list of (index, offset in model, block definition); None if the length does not fit."""
    fixed = d.get("fixed") or {"len": 0, "points": []}
    if length == 0 or length is None:
        length = d["len"]
    flen = fixed["len"]
    if d["id"] == 1 and length == 65:
        flen = 65
    if length < flen:
        return None
    out = [(0, 0, fixed)]
    rep = d.get("repeating")
    if rep is None:
        return out
    pos = flen
    i = 1
    while pos < length:
        if length < pos + rep["len"]:
            return None
        out.append((i, pos, rep))
        pos += rep["len"]
        i += 1
    return out


def model_length(d, length):
    return d["len"] if not length else length


def const_sf(s):
    try:
        return int(s)
    except ValueError:
        return None


def resolve_sf(d, index, block, p):
    """-> ('const', n) | ('point', block index, point) | None for no scale factor; KeyError if unresolved."""
    s = p.get("sf")
    if s is None:
        return None
    n = const_sf(s)
    if n is not None:
        return ("const", n)
    for q in block["points"]:
        if q["id"] == s and q["type"] == "sunssf":
            return ("point", index, q)
    if index > 0 and d.get("fixed"):
        for q in d["fixed"]["points"]:
            if q["id"] == s and q["type"] == "sunssf":
                return ("point", 0, q)
    raise KeyError(s)


def read_values(d, length, data):
    """Expected state of a model after reading `data` (bytes of the model's registers).

    -> {(block index, point id): (raw value, scale factor or None)} for value points, and
       {(block index, point id): raw} for scale factor points."""
    lay = layout(d, length)
    off = {i: o for i, o, b in lay}
    vals, sfs = {}, {}
    for i, o, b in lay:
        for p in b["points"]:
            if p["type"] == "pad":
                continue
            a = (o + p["offset"]) * 2
            raw = decode(p["type"], data[a:a + 2 * pw(p)])
            if p["type"] == "sunssf":
                sfs[(i, p["id"])] = raw
    for i, o, b in lay:
        for p in b["points"]:
            if not is_value_point(p):
                continue
            a = (o + p["offset"]) * 2
            raw = decode(p["type"], data[a:a + 2 * pw(p)])
            sf = None
            r = resolve_sf(d, i, b, p)
            if r is not None:
                sf = r[1] if r[0] == "const" else sfs[(r[1], r[2]["id"])]
            vals[(i, p["id"])] = (raw, sf)
    return vals, sfs


def scaled(raw, sf):
    if raw is None:
        return None
    if not sf:
        return raw
    return raw * math.pow(10, sf)


# -------------------------------------------------------------------------------- documents

def _opt(attrib, name, value):
    if value is not None:
        attrib[name] = str(value)


def _texts(parent, d):
    for k in ("label", "description", "notes"):
        if d.get(k) is not None:
            ET.SubElement(parent, k).text = d[k]


def smdx_element(d):
    root = ET.Element("sunSpecModels", {"v": "1"})
    a = {"id": str(d["id"]), "len": str(d["len"])}
    _opt(a, "name", d.get("name"))
    m = ET.SubElement(root, "model", a)
    order = d.get("order") or ""
    for kind in ("repeating", "fixed") if "r" in order else ("fixed", "repeating"):
        b = d.get(kind)
        if b is None:
            continue
        a = {"len": str(b["len"])}
        if kind == "repeating" or b.get("typed"):
            a["type"] = kind
        _opt(a, "name", b.get("name"))
        be = ET.SubElement(m, "block", a)
        for p in b["points"]:
            a = {"id": p["id"], "offset": str(p["offset"]), "type": p["type"]}
            for k in ("len", "sf", "access", "mandatory", "units"):
                _opt(a, k, p.get(k))
            pe = ET.SubElement(be, "point", a)
            for s in p.get("symbols") or []:
                se = ET.SubElement(pe, "symbol", {"id": s["id"]})
                se.text = s.get("value")
    if d.get("strings", True):
        st = ET.SubElement(root, "strings", {"id": str(d["id"]), "locale": "en"})
        if any(d.get(k) is not None for k in ("label", "description", "notes")):
            _texts(ET.SubElement(st, "model"), d)
        for kind in ("fixed", "repeating"):
            for p in (d.get(kind) or {"points": []})["points"]:
                syms = [s for s in p.get("symbols") or [] if any(s.get(k) is not None for k in ("label", "description", "notes"))]
                if syms or any(p.get(k) is not None for k in ("label", "description", "notes")):
                    pe = ET.SubElement(st, "point", {"id": p["id"]})
                    _texts(pe, p)
                    for s in syms:
                        _texts(ET.SubElement(pe, "symbol", {"id": s["id"]}), s)
        if "p" in order:
            st[:] = [e for e in st if e.tag == "point"][::-1] + [e for e in st if e.tag != "point"]
        if "s" in order:
            root[:] = [st, m]
    return root


ENCODINGS = ["ascii", "utf-8", "utf-8-sig", "bare", "iso-8859-1", "utf-16", "windows-1252"]


def xml_doc(root, enc="ascii"):
    """The bytes of a document in an encoding it declares (utf-8 may go without)."""
    if enc == "ascii":
        return ET.tostring(root)
    text = ET.tostring(root, encoding="unicode")
    if enc in ("bare", "utf-8-sig"):
        return (b"\xef\xbb\xbf" if enc == "utf-8-sig" else b"") + text.encode("utf-8")
    head = '<?xml version="1.0" encoding="%s"?>\n<!-- %s -->\n' % (enc, "\u00e9")
    return (head + text).encode(enc, "xmlcharrefreplace")


def smdx_xml(d, enc="ascii"):
    return xml_doc(smdx_element(d), enc)


def smdx_name(mid):
    return "smdx_%05d.xml" % mid


def mbmap_xml(base, blocks):
    """blocks: list of (register offset, bytes)"""
    root = ET.Element("mbmap", {"addr": str(base), "func": "holding"})
    for off, data in blocks:
        e = ET.SubElement(root, "regs", {"offset": str(off), "len": str(len(data) // 2), "type": "hexstr"})
        e.text = data.hex()
    return ET.tostring(root)


# ---------------------------------------------------------------------------------- modbus

def crc16(data):
    crc = 0xffff
    for b in data:
        crc ^= b
        for _ in range(8):
            crc = (crc >> 1) ^ 0xa001 if crc & 1 else crc >> 1
    return crc


def rtu_frame(pdu):
    c = crc16(pdu)
    return pdu + bytes([c & 0xff, c >> 8])


def read_req(unit, func, addr, count):
    return struct.pack(">BBHH", unit, func, addr, count)


def write_req(unit, addr, data):
    return struct.pack(">BBHHB", unit, 16, addr, len(data) // 2, len(data)) + data


def tcp_frame(tid, pdu):
    return struct.pack(">HHH", tid, 0, len(pdu)) + pdu


def chunks(addr, count, limit):
    out = []
    while count > 0:
        n = min(limit, count)
        out.append((addr, n))
        addr += n
        count -= n
    return out
