"""Generators of definitions, register contents and devices, as plain JSON data.

definition: {"id", "len", "name", label/description/notes, "fixed": block, "repeating": block|None}
block:      {"len", "name", "points": [point]}
point:      {"id", "offset", "type", "len"?, "sf"?, "access"?, "mandatory"?, "units"?, "symbols"?...}
"""
import struct
from hypothesis import strategies as st
import ref

IDS = ["A", "AphA", "V", "PhVph", "W", "Hz", "VA", "PF", "WH", "St", "Evt1", "Mn", "Md", "DA", "Ena", "N",
       "Tms", "TmpCab", "Vr", "SN", "Opt", "Crv", "DCW", "ID", "Lat", "Typ", "In", "Out", "x", "y", "z_9", "Q"]
MODEL_NAMES = ["common", "inverter", "mppt", "meter", "storage", "nameplate", "m_x", "Basic"]
REP_NAMES = ["strings", "lane", "curve", "module", "phs", "PVString"]
WEIGHTED = (["int16", "uint16", "sunssf", "sunssf", "pad", "string"] + ref.ALL_TYPES)
NUM_WEIGHTED = ["int16", "uint16", "acc16", "int32", "uint32", "acc32", "int64", "uint64", "acc64", "count",
                "sunssf", "sunssf", "sunssf", "sunssf", "string", "enum16"]
CONST_SF = ["-3", "-2", "-1", "0", "1", "2", "3", "-10", "10", "5", "-7"]


def raw_point(types=WEIGHTED, max_str=20, gaps=(0, 0, 0, 0, 0, 1, 3), long_str=()):
    return st.tuples(st.sampled_from(types), st.sampled_from(gaps),
                     st.one_of(st.integers(1, max_str), st.integers(1, max_str), st.sampled_from(long_str)) if long_str
                     else st.integers(1, max_str),
                     st.integers(0, 9), st.sampled_from(CONST_SF), st.integers(0, 7), st.integers(0, len(IDS) - 1))


def raw_block(min_points=0, max_points=10, **kw):
    return st.tuples(st.lists(raw_point(**kw), min_size=min_points, max_size=max_points),
                     st.sampled_from([0, 0, 0, 1, 2]))


def build_block(raw, fixed_sfs, name=None, ids_used=None, min_len=0, sf_ok=True):
    pts_raw, trail = raw
    points, off = [], 0
    used = set() if ids_used is None else ids_used
    nsf = sum(1 for r in pts_raw if r[0] == "sunssf")
    local = ["A_SF", "B_SF", "C_SF", "D_SF", "E_SF"] + ["S%d_SF" % i for i in range(nsf)]
    local = local[:nsf]
    k = 0
    for i, (t, gap, slen, sfsel, const, flags, idn) in enumerate(pts_raw):
        off += gap
        if t == "sunssf":
            pid = local[k]
            k += 1
        elif t == "pad":
            pid = "Pad%d" % i
        else:
            pid = IDS[idn]
            n = i
            while pid in used:
                pid = IDS[idn] + "_%d" % n
                n += 1
        used.add(pid)
        p = {"id": pid, "offset": off, "type": t}
        if t == "string":
            p["len"] = slen
        elif t == "pad" and slen % 3 == 0:
            p["len"] = 1 + slen % 4
        elif flags & 4 and slen % 5 == 0:
            p["len"] = ref.NAT[t][0]
        if t in ref.SCALABLE and sf_ok:
            if sfsel in (3, 4):
                p["sf"] = const
            elif sfsel in (5, 6, 7) and local:
                p["sf"] = local[(sfsel + slen) % len(local)]
            elif sfsel in (8, 9) and fixed_sfs:
                p["sf"] = fixed_sfs[slen % len(fixed_sfs)]
        if flags & 1:
            p["access"] = "rw"
        if flags & 2:
            p["mandatory"] = "true"
        off += ref.pw(p)
        points.append(p)
    return {"len": max(off + trail, min_len), "name": name, "points": points}


def sf_ids(block):
    return [p["id"] for p in block["points"] if p["type"] == "sunssf"]


@st.composite
def definition(draw, mid=None, fixed_kw=None, rep_kw=None, repeating=None, names=True, min_fixed_len=0, sf_ok=True):
    """A well-formed model definition. repeating: True/False/None (either)."""
    fixed_kw = dict(fixed_kw or {})
    rep_kw = dict(rep_kw or {})
    rep_kw.setdefault("max_points", 6)
    if mid is None:
        mid = draw(st.integers(2, 65000))
    if repeating is None:
        repeating = draw(st.booleans())
    fixed = build_block(draw(raw_block(**fixed_kw)), [], min_len=min_fixed_len, sf_ok=sf_ok)
    name = None
    if names:
        name = draw(st.one_of(st.none(), st.sampled_from(MODEL_NAMES)))
    rep = None
    if repeating:
        rname = draw(st.one_of(st.none(), st.sampled_from(REP_NAMES))) if names else None
        rep = build_block(draw(raw_block(**rep_kw)), sf_ids(fixed), name=rname, min_len=1, sf_ok=sf_ok)
    d = {"id": mid, "name": name, "fixed": fixed, "repeating": rep}
    d["len"] = ref.def_len(d)
    return d


# ------------------------------------------------------------------------------- contents

LATIN = "".join(chr(c) for c in list(range(32, 127)) + list(range(161, 256)))
PLAIN = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._/"


def content(ptype, w, blob, xmlsafe=False, scale_safe=None):
    """Register bytes of one point from 10 generated bytes (mode, value...).

    xmlsafe: values that survive as XML text. scale_safe: bound for |raw| of scalable points."""
    mode = blob[0] % 10
    n = int.from_bytes(blob[1:9], "big")
    if ptype == "sunssf":
        if mode == 9:
            return b"\x80\x00"
        return struct.pack(">h", (n + 256) % 21 - 10 if n else 0)
    if ptype == "string":
        size = 2 * w
        if mode == 9:
            return b"\0" * size
        if mode == 8 and not xmlsafe:
            return (blob * (size // 10 + 1))[:size]
        ln = size if mode >= 6 else n % (size + 1)
        alpha = LATIN if mode in (4, 7) else PLAIN
        if ln == 0:
            return b"\0" * size
        s = "".join(alpha[(n >> (i % 40)) * (i + 1) % len(alpha)] for i in range(ln))
        if blob[1] % 5 == 0:
            # blanks at the ends, or nothing but blanks
            s = {0: " " * ln, 1: s[:-1] + " ", 2: " " + s[1:]}[n % 3]
        return s.encode("latin-1") + b"\0" * (size - ln)
    if ptype == "ipv6addr":
        if mode == 9:
            return b"\0" * 16
        if mode == 8:
            return b"\0" * 15 + bytes([n & 255])
        return (blob[1:9] + bytes(255 - b for b in blob[1:9])) if mode != 7 else b"\0" * 8 + blob[1:9]
    if ptype == "eui48":
        if mode == 9:
            return b"\0\0" + b"\xff" * 6
        if mode == 8:
            return b"\0" * 7 + b"\1"
        body = blob[3:9]
        if body == b"\0" * 6:
            body = b"\0\0\0\0\0\2"
        return b"\0\0" + body
    bits = 16 * w
    top = 1 << bits
    if ptype == "float32":
        if mode == 9:
            return b"\x7f\xc0\x00\x00"
        if mode in (0, 1, 2):
            return struct.pack(">f", (n % 20001 - 10000) / 8.0)
        if mode == 3:
            return struct.pack(">f", (n % 2001 - 1000) / 1000.0)
        v = n % top
        return v.to_bytes(4, "big")
    m = ref.MARKER[ptype]
    if mode == 9:
        v = m
    elif mode == 8:
        v = m + (1 if n & 1 else -1)
    elif mode == 7:
        v = [0, 1, top - 1, top - 2, top // 2, top // 2 - 1, top // 2 + 1][n % 7]
    elif mode >= 4:
        v = n
    elif mode >= 2:
        v = n % 1000
    else:
        v = n % 60000
        if n & (1 << 40):
            v = -v
    v %= top
    if scale_safe is not None and ptype in ref.SCALABLE:
        sv = v - top if ref.NAT[ptype][1].islower() and v >= top // 2 else v
        if v != m and abs(sv) > scale_safe:
            v = n % scale_safe
    return v.to_bytes(2 * w, "big")


def model_points(d, length):
    """(block index, absolute offset in model, point) of every point of the model"""
    out = []
    for i, o, b in ref.layout(d, length):
        for p in b["points"]:
            out.append((i, o + p["offset"], p))
    return out


def fill_model(d, length, blob, filler=0, xmlsafe=False, scale_safe=None):
    """Register bytes of a whole model from generated bytes."""
    n = ref.model_length(d, length)
    data = bytearray()
    for i in range(n):
        v = (filler * 257 + i * 7 * (1 if filler else 0)) & 0xffff
        data += bytes([v >> 8, v & 255])
    blob = blob or b"\0"
    for k, (i, o, p) in enumerate(model_points(d, length)):
        if p["type"] == "pad":
            continue
        piece = bytes(blob[(10 * k + j) % len(blob)] for j in range(10))
        data[2 * o:2 * o + 2 * ref.pw(p)] = content(p["type"], ref.pw(p), piece, xmlsafe, scale_safe)
    return bytes(data[:2 * n])


def draw_blob(draw, d, length):
    """Ten bytes a point; many points share a blob whose length is prime (no two blocks alike)."""
    n = min(10 * (len(model_points(d, length)) or 1), 607)
    return draw(st.binary(min_size=n, max_size=n))


@st.composite
def model_image(draw, d, max_rep=4, extra=False, xmlsafe=False, scale_safe=None, min_rep=0, many=False):
    """-> {"id", "len", "data"} one model instance of definition d"""
    length = d["fixed"]["len"]
    if d["repeating"]:
        n = draw(st.integers(min_rep, max_rep))
        if many and len(d["repeating"]["points"]) <= 3 and d["repeating"]["len"] <= 8 and draw(st.integers(0, 5)) == 0:
            n = draw(st.sampled_from([10, 11, 12, 16, 20, 33, 64, 99, 100, 101, 130]))
            rest = 1500 - length        # keeps the whole map within the address space
            n = max(min_rep, min(n, rest // d["repeating"]["len"]))
        length += d["repeating"]["len"] * n
    elif extra:
        length += draw(st.sampled_from([0, 0, 0, 1, 7]))
    if length == 0 and d["len"]:
        # a reported length of zero means the definition's own: not a different instance
        length = d["len"]
    blob = draw_blob(draw, d, length)
    data = fill_model(d, length, blob, filler=draw(st.integers(0, 3)), xmlsafe=xmlsafe, scale_safe=scale_safe)
    return {"id": d["id"], "len": length, "data": data.hex()}


def refill(d, length, draw, **kw):
    blob = draw_blob(draw, d, length)
    return fill_model(d, length, blob, filler=draw(st.integers(0, 3)), **kw).hex()


def random_bytes(draw, n):
    if n == 0:
        return b""
    b = draw(st.binary(min_size=1, max_size=min(n, 64)))
    return (b * (n // len(b) + 1))[:n]


# ------------------------------------------------------------------------------- large ones

COUNTS = [9, 13, 17, 26, 31, 33, 52, 65, 101, 130, 257]


@st.composite
def large_definition(draw, mid=None, max_points=300, far=False, **kw):
    """A definition of many points: a few drawn ones over and over."""
    mid = draw(st.integers(2, 65000)) if mid is None else mid
    kw.setdefault("max_str", 6)
    tile = draw(st.lists(raw_point(**kw), min_size=2, max_size=8))
    n = min(draw(st.sampled_from(COUNTS)), max_points)
    raw = [tile[i % len(tile)] for i in range(n)]
    if far:
        k = draw(st.integers(0, n - 1))
        raw[k] = raw[k][:1] + (draw(st.sampled_from([300, 1100, 5000, 33000])),) + raw[k][2:]
    fixed = build_block((raw, 0), [])
    rep = None
    if draw(st.booleans()):
        tile = draw(st.lists(raw_point(**kw), min_size=1, max_size=5))
        m = min(draw(st.sampled_from([1, 3, 12, 33, 70])), max_points)
        rep = build_block(([tile[i % len(tile)] for i in range(m)], 0), sf_ids(fixed), name=draw(st.sampled_from([None, "lane"])), min_len=1)
    d = {"id": mid, "name": draw(st.sampled_from([None, "m_x"])), "fixed": fixed, "repeating": rep}
    d["len"] = ref.def_len(d)
    if draw(st.integers(0, 4)) == 0:
        long_ids(d)
    return d


def long_ids(d):
    """Gives the points of a definition ids that only differ at their ends."""
    other = {}
    for b in (d["fixed"], d["repeating"]):
        for p in (b or {"points": []})["points"]:
            other[p["id"]] = "x" * 40 + p["id"]
    for b in (d["fixed"], d["repeating"]):
        for p in (b or {"points": []})["points"]:
            p["id"] = other[p["id"]]
            if p.get("sf") in other:
                p["sf"] = other[p["sf"]]


def stir(blob, k):
    """Other bytes made of these (for one more model of the same kind)."""
    return bytes((x * (2 * k + 1) + 37 * k + (i >> 3) * k) & 255 for i, x in enumerate(blob or b"\0"))
