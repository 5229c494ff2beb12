"""C01 codec, C02 markers, C03 scale factors on read, C04 setting values."""
import math, struct
from hypothesis import strategies as st
import harness, ref, gen, bench
from harness import part, enumerated, eq, fail, close_to, no_error
import sut


# --------------------------------------------------------------------------------- C01

def int_values(t):
    lo, hi = ref.int_range(t)
    edges = sorted({lo, lo + 1, hi, hi - 1, 0, 1, hi // 2, hi // 2 + 1, 255, 256, 0x0102030405060708 % hi}
                   | ({-1, -2, -256} if lo < 0 else set()))
    return st.one_of(st.integers(lo, hi), st.sampled_from(edges))


HEX6 = st.binary(min_size=6, max_size=6).filter(lambda b: any(b))
F32 = st.one_of(st.floats(width=32, allow_nan=False), st.sampled_from([0.0, -0.0, 1.5, float("inf"), -float("inf"), ref.f32(1e-45), 3.4028234663852886e38]))
TEXT = st.text(alphabet=st.characters(min_codepoint=1, max_codepoint=255), max_size=40)


@st.composite
def codec_case(draw):
    t = draw(st.sampled_from([x for x in ref.ALL_TYPES if x != "pad"] + ["string", "string", "uint64", "acc64"]))
    c = {"type": t, "len": None}
    if t == "string":
        c["len"] = draw(st.one_of(st.integers(1, 20), st.integers(1, 60), st.integers(1, 20), st.integers(1, 60), st.integers(61, 300)))
        c["value"] = draw(TEXT)
        if draw(st.booleans()):      # text about as long as the field
            n = 2 * c["len"] + draw(st.integers(-2, 2))
            c["value"] = (c["value"] + "abcdefghijklmnopqrstuvwxyz" * 24)[:max(0, n)]
        # text ends that a tidy-up might take for filling
        c["value"] = draw(st.sampled_from(["", "", "", " ", "\t", "\xff", "\r\n", "\xa0", "0"])) + c["value"]
        tail = draw(st.sampled_from(["", "", "", " ", "  ", "\t", "\n", "\xff", "\xa0", "0"]))
        if tail:
            c["value"] = c["value"][:max(0, 2 * c["len"] - len(tail))] + tail
    elif t == "ipv6addr":
        b = draw(st.binary(min_size=16, max_size=16))
        c["value"] = ref.decode(t, b) or "00000000:00000000:00000000:00000001"
    elif t == "eui48":
        c["value"] = ":".join("%02X" % x for x in draw(HEX6))
    elif t == "float32":
        c["value"] = draw(F32)
    elif t == "sunssf":
        c["value"] = draw(st.integers(-32768, 32767))
    else:
        c["value"] = draw(int_values(t))
    w = ref.width(t, c["len"])
    c["raw"] = draw(st.binary(min_size=2 * w, max_size=2 * w)).hex()
    c["via"] = draw(st.sampled_from(["type", "write", "point_write"]))
    c["transport"] = draw(st.sampled_from(bench.TRANSPORTS))
    return c


def one_point_case(c, data, transport="mapped", extra_points=()):
    w = ref.width(c["type"], c["len"])
    p = {"id": "P", "offset": 1, "type": c["type"], "access": "rw"}
    if c["len"] is not None:
        p["len"] = c["len"]
    d = {"id": 321, "name": None, "len": w + 2, "repeating": None,
         "fixed": {"len": w + 2, "name": None, "points": [{"id": "Before", "offset": 0, "type": "uint16"}, p,
                                                          {"id": "After", "offset": w + 1, "type": "uint16"}]}}
    return {"transport": transport, "base": 40000, "unit": 1, "defs": [d],
            "models": [{"id": 321, "len": w + 2, "data": (b"\x5a\x5a" + data + b"\xa5\xa5").hex()}]}


def expect_decode(t, raw):
    v = ref.decode(t, raw)
    return v


@part("C01", "codec", lambda tier: codec_case(), quick=1500,
      rule="point type (all), value over its full range (edges weighted), field length, raw register pattern; encoding and "
           "decoding through the type table, a model write and a single point write; non-trivial: not the zero value")
def c01(case, rec):
    t, v = case["type"], case["value"]
    w = ref.width(t, case["len"])
    raw = bytes.fromhex(case["raw"])
    want = ref.encode(t, v, case["len"])
    rec.label(t, case["via"])
    rec.nontrivial(v not in (0, 0.0, ""))
    if t == "string":
        rec.label("string-" + ("cut" if len(v) > 2 * w else "exact" if len(v) == 2 * w else "short"))
    back = v
    if t == "string":
        back = ref.decode(t, want)
    if t == "string" and back is None:
        back = "\0" if want[:1] == b"\0" else ""
    with bench.bench(one_point_case(case, raw, case["transport"])) as b:
        b.open()
        m = b.add_models()[0]
        pt = m.points["P"] if t != "sunssf" else m.points_sf["P"]
        ptype = pt.point_type
        # decoding of an arbitrary register pattern
        m.read_points()
        eq(pt.value_base, ref.decode(t, raw), "%s decoded from %s" % (t, raw.hex()))
        # encoding
        if case["via"] == "type" or t == "sunssf":
            got = ptype.to_data(v, 2 * w)
            eq(bytes(got), want, "%s encoding of %r in %d registers" % (t, v, w))
        else:
            pt.value = v
            if case["via"] == "write":
                m.write_points()
            else:
                pt.write()
            eq(b.model_data(0), b"\x5a\x5a" + want + b"\xa5\xa5", "registers after writing %s %r" % (t, v))
        # round trip through the type's own functions
        b.set_model_data(0, b"\x5a\x5a" + want + b"\xa5\xa5")
        m.read_points()
        exp = ref.decode(t, want)
        eq(pt.value_base, exp, "%s %r read back" % (t, v))
        if t != "string" and exp is not None:
            eq(exp, v, "reference round trip")
            # the value given as text stands for the same value
            text = repr(v) if isinstance(v, float) else str(v)
            eq(ptype.to_value(text), v, "%s value from text %r" % (t, text))
            if isinstance(v, int):
                eq(ptype.to_value(hex(v)), v, "%s value from text %r" % (t, hex(v)))
        kinds = {int: int, float: float, str: str}
        if pt.value_base is not None:
            if type(pt.value_base) is not kinds[type(exp)]:
                fail("%s decoded to a %s", t, type(pt.value_base).__name__)


@enumerated("C01", "single-bytes", lambda tier: [{"type": t, "len": n} for t in ref.ALL_TYPES if t != "pad"
                                               for n in ([1, 2, 3, 8, 17] if t == "string" else [None])],
            rule="every type with every single byte of its registers set to each of 14 values, the others 00, FF or 55, decoded by a "
                 "model read and encoded again by a model write; all non-trivial")
def c01bytes(case, rec):
    t = case["type"]
    w = ref.width(t, case["len"])
    first = 2 if t == "eui48" else 0        # the first register of an EUI-48 is filling
    with bench.bench(one_point_case(case, bytes(2 * w))) as b:
        b.open()
        m = b.add_models()[0]
        pt = m.points["P"] if t != "sunssf" else m.points_sf["P"]
        for rest in (0, 0xff, 0x55):
            for pos in range(first, 2 * w):
                for v in (0, 1, 2, 4, 8, 16, 32, 64, 128, 255, 254, 127, 0x20, 0x30):
                    raw = bytearray([0] * first + [rest] * (2 * w - first))
                    raw[pos] = v
                    raw = bytes(raw)
                    b.set_model_data(0, b"\x5a\x5a" + raw + b"\xa5\xa5")
                    m.read_points()
                    want = ref.decode(t, raw)
                    eq(pt.value_base, want, "%s decoded from %s" % (t, raw.hex()))
                    if want is None or t == "sunssf":
                        continue
                    again = ref.encode(t, want, case["len"])
                    b.set_model_data(0, bytes(2 * w + 4))
                    pt.value = want
                    m.write_points()
                    eq(b.model_data(0), bytes(2) + again + bytes(2), "registers after writing %s %r" % (t, want))
    rec.label(t)
    rec.nontrivial(True)


WORDS = [t for t in ref.ALL_TYPES if t not in ("pad", "string") and ref.NAT[t][0] == 1]
SPAN = 4096


def word_cases(tier):
    for t in WORDS:
        for first in range(0, 65536, SPAN):
            yield {"type": t, "first": first}


def every_word(case, rec, check):
    """All the values of a register, in the repeating blocks of one model."""
    t = case["type"]
    d = {"id": 321, "name": None, "len": 1, "fixed": {"len": 0, "name": None, "points": []},
         "repeating": {"len": 1, "name": None, "points": [{"id": "P", "offset": 0, "type": t}]}}
    words = range(case["first"], case["first"] + SPAN)
    data = b"".join(struct.pack(">H", x) for x in words)
    with bench.bench({"transport": "mapped", "base": 40000, "unit": 1, "defs": [d], "models": [{"id": 321, "len": SPAN, "data": data.hex()}]}) as b:
        b.open()
        m = b.add_models()[0]
        m.read_points()
        eq(len(m.blocks), SPAN + 1, "blocks")
        points = [(blk.points_sf if t == "sunssf" else blk.points)["P"] for blk in m.blocks[1:]]
        check(b, m, t, [(x, ref.decode(t, struct.pack(">H", x)), p) for x, p in zip(words, points)])
    rec.label(t)
    rec.nontrivial(True)


@enumerated("C01", "every-word", word_cases, rule="every value of the types of one register, decoded by a model read and encoded again by a model write; all non-trivial")
def c01words(case, rec):
    def check(b, m, t, points):
        want = b""
        for x, v, p in points:
            if p.value_base != v or type(p.value_base) is not type(v):
                fail("%s decoded from %04x: %r, expected %r", t, x, p.value_base, v)
            if v is not None and t != "sunssf":
                p.value = v
                want += ref.encode(t, v)
            else:
                want += b"\5\5"
        if t != "sunssf":
            b.set_model_data(0, b"\5\5" * len(points))
            m.write_points()
            if b.model_data(0) != want:
                fail("%s: registers after writing the values of %04x to %04x", t, points[0][0], points[-1][0])
    every_word(case, rec, check)


@enumerated("C02", "every-word", word_cases, rule="every value of the types of one register in a model read; all non-trivial")
def c02words(case, rec):
    def check(b, m, t, points):
        for x, v, p in points:
            if (p.value_base is None) != (x == ref.MARKER[t]):
                fail("%s register %04x read as %r, the mark of an unimplemented point is %04x", t, x, p.value_base, ref.MARKER[t])
    every_word(case, rec, check)


ALL_BUT_SF = [t for t in ref.ALL_TYPES if t not in ("pad", "sunssf")]


@st.composite
def blocks_case(draw, markers=False):
    """A device with every type in fixed and repeating blocks, and contents it had before."""
    types = ALL_BUT_SF + ["string", "pad", "sunssf", "sunssf"]
    c = draw(bench.device_case(max_models=2, unknown=False, max_defs=2, min_models=1,
                               fixed_kw=dict(types=types, min_points=0, max_points=8, max_str=12),
                               rep_kw=dict(types=types, min_points=1, max_points=6, max_str=12), max_rep=4, many=True))
    defs = {d["id"]: d for d in c["defs"]}
    c["before"] = [gen.refill(defs[m["id"]], m["len"], draw) for m in c["models"]] if draw(st.booleans()) else None
    if markers:
        for m in c["models"]:
            data = bytearray(bytes.fromhex(m["data"]))
            pick = draw(st.binary(min_size=8, max_size=8))
            for k, (i, o, p) in enumerate(gen.model_points(defs[m["id"]], m["len"])):
                how = pick[k % 8] >> (k // 8 % 4) & 3
                if p["type"] == "pad" or how == 3 or (how == 2 and p["type"] == "sunssf"):
                    continue
                mk = bytearray(ref.marker_bytes(p["type"], ref.pw(p)))
                if how == 2 and p["type"] != "string":
                    mk[-1 - pick[(k + 3) % 8] % len(mk)] ^= 1 << (pick[(k + 5) % 8] & 7)
                data[2 * o:2 * o + len(mk)] = mk
            m["data"] = bytes(data).hex()
    c["by"] = draw(st.sampled_from(["device", "model", "point"]))
    c["writes"] = []
    cand = []
    for j, m in enumerate(c["models"]):
        for i, pid, p, sf in settable(defs[m["id"]], m["len"], bytes.fromhex(m["data"])):
            if not sf:
                cand.append([j, i, pid, p])
    if cand:
        for _ in range(draw(st.integers(0, 4))):
            j, i, pid, p = cand[draw(st.integers(0, len(cand) - 1))]
            c["writes"].append([j, i, pid, draw(any_value(p)), draw(st.sampled_from(["model", "point", "later"]))])
    return c


@st.composite
def any_value(draw, p):
    t = p["type"]
    if t == "string":
        return draw(TEXT)
    if t == "float32":
        return draw(F32)
    if t == "ipv6addr":
        return ref.decode(t, draw(st.binary(min_size=16, max_size=16))) or "00000000:00000000:00000000:00000001"
    if t == "eui48":
        return ":".join("%02X" % x for x in draw(HEX6))
    return draw(int_values(t))


def do_blocks(case, rec):
    defs = {d["id"]: d for d in case["defs"]}
    with bench.bench(case) as b:
        b.open()
        ms = b.add_models()
        if case["before"]:
            for j, h in enumerate(case["before"]):
                b.set_model_data(j, bytes.fromhex(h))
            b.cd.read_points()
            for j, m in enumerate(case["models"]):
                check_read_state(ms[j], defs[m["id"]], m["len"], bytes.fromhex(case["before"][j]), "first read: ")
                b.set_model_data(j, bytes.fromhex(m["data"]))
        none = rep = 0
        if case["by"] == "device":
            b.cd.read_points()
        elif case["by"] == "model":
            for m in ms:
                m.read_points()
        for j, m in enumerate(case["models"]):
            d, data = defs[m["id"]], bytes.fromhex(m["data"])
            if case["by"] == "point":
                # the raw registers given to each point by hand
                for i, o, p in gen.model_points(d, m["len"]):
                    if p["type"] == "pad":
                        continue
                    blk = ms[j].blocks[i]
                    pt = blk.points_sf[p["id"]] if p["type"] == "sunssf" else blk.points[p["id"]]
                    want = ref.decode(p["type"], data[2 * o:2 * (o + ref.pw(p))])
                    if want is not None:
                        eq(pt.point_type.data_to(data[2 * o:2 * (o + ref.pw(p))]), want, "%s of block %d (%s) decoded by its type" % (p["id"], i, p["type"]))
                ms[j].read_points()
            check_read_state(ms[j], d, m["len"], data, "read: ")
            vals, sfs = ref.read_values(d, m["len"], data)
            none += sum(1 for v, sf in vals.values() if v is None) + sum(1 for v in sfs.values() if v is None)
            rep += len(ref.layout(d, m["len"])) > 1
        img = {j: bytearray(bytes.fromhex(m["data"])) for j, m in enumerate(case["models"])}
        for j, i, pid, v, how in case["writes"]:
            m = case["models"][j]
            d = defs[m["id"]]
            o, p = [(o, p) for bi, o, p in gen.model_points(d, m["len"]) if bi == i and p["id"] == pid][0]
            pt = ms[j].blocks[i].points[pid]
            pt.value = v
            want = ref.encode(p["type"], v, ref.pw(p))
            img[j][2 * o:2 * o + len(want)] = want
            if how == "later":
                continue
            if how == "point":
                pt.write()
                eq(b.model_data(j)[2 * o:2 * o + len(want)].hex(), want.hex(), "registers of %s (%s) of block %d after writing %r" % (pid, p["type"], i, v))
            else:
                ms[j].write_points()
                eq(b.model_data(j).hex(), bytes(img[j]).hex(), "registers of the model after writing %r to %s (%s) of block %d" % (v, pid, p["type"], i))
        for j, m in enumerate(ms):
            m.write_points()
            eq(b.model_data(j).hex(), bytes(img[j]).hex(), "registers of the model after all writes")
        b.cd.read_points()
        for j, m in enumerate(case["models"]):
            check_read_state(ms[j], defs[m["id"]], m["len"], bytes(img[j]), "read after the writes: ")
        b.cd.close()
    rec.label(case["transport"], case["by"], "written" if case["writes"] else "read-only")
    return none, rep


@part("C01", "blocks", lambda tier: blocks_case(), quick=350,
      rule="devices with points of all types in fixed and repeating blocks: read by device, model or type, some points set and written by "
           "model or point, registers and values compared with the reference; non-trivial: repeating blocks or writes")
def c01_blocks(case, rec):
    none, rep = do_blocks(case, rec)
    rec.nontrivial(rep > 0 or bool(case["writes"]))


@part("C02", "blocks", lambda tier: blocks_case(markers=True), quick=350,
      rule="the same with markers and one-bit neighbours of markers in most points and scale factors of all blocks, also after a read of "
           "other contents; non-trivial: unimplemented points and repeating blocks")
def c02_blocks(case, rec):
    none, rep = do_blocks(case, rec)
    rec.nontrivial(none > 0 and rep > 0)
    if case["before"]:
        rec.label("after-other-contents")


# --------------------------------------------------------------------------------- C02

@st.composite
def marker_case(draw):
    t = draw(st.sampled_from([x for x in ref.ALL_TYPES if x != "pad"]))
    plen = draw(st.integers(1, 12)) if t == "string" else None
    w = ref.width(t, plen)
    mk = int.from_bytes(ref.marker_bytes(t, plen), "big")
    bits = 16 * w
    if t == "float32":
        raw = draw(st.one_of(
            st.sampled_from([0x7fc00000, 0xffc00000, 0x7f800001, 0x7fffffff, 0xffffffff, 0x7f800000, 0xff800000, 0, 0x80000000]),
            st.integers(0, (1 << 23) - 1).map(lambda m: 0x7f800000 | m), st.integers(0, (1 << 32) - 1)))
    else:
        raw = draw(st.one_of(st.just(mk), st.integers(0, bits - 1).map(lambda k: mk ^ (1 << k)),
                             st.integers(-3, 3).map(lambda d: (mk + d) % (1 << bits)),
                             st.sampled_from([0, 1, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1]),
                             st.integers(0, (1 << bits) - 1)))
    raw = raw.to_bytes(2 * w, "big")
    if t == "string":
        k = draw(st.integers(0, 4))
        if k == 0:
            raw = b"\0" + raw[1:]
        elif k == 1:
            raw = raw[:1].replace(b"\0", b"x") + b"\0" * (2 * w - 1)
        elif k == 2:
            raw = b" " + raw[1:]
    return {"type": t, "len": plen, "raw": raw.hex(), "prev": draw(st.booleans()),
            "transport": draw(st.sampled_from(bench.TRANSPORTS)), "sf": draw(st.sampled_from([None, "1", "-2"]))}


@part("C02", "read", lambda tier: marker_case(), quick=1200,
      rule="type x marker / one-bit and +-3 neighbours of the marker / extremes / arbitrary pattern, optionally after a read "
           "of a real value; non-trivial: marker or neighbour")
def c02_read(case, rec):
    t = case["type"]
    raw = bytes.fromhex(case["raw"])
    w = ref.width(t, case["len"])
    want = ref.decode(t, raw)
    mk = ref.marker_bytes(t, case["len"])
    near = bin(int.from_bytes(raw, "big") ^ int.from_bytes(mk, "big")).count("1") <= 1
    rec.label(t, "marker" if want is None else "value")
    rec.nontrivial(want is None or near)
    wc = one_point_case(case, raw, case["transport"])
    if case["sf"] and t in ref.SCALABLE:
        wc["defs"][0]["fixed"]["points"][1]["sf"] = case["sf"]
    with bench.bench(wc) as b:
        b.open()
        m = b.add_models()[0]
        pt = m.points["P"] if t != "sunssf" else m.points_sf["P"]
        if case["prev"]:
            good = {"string": "abc", "ipv6addr": "00000001:00000002:00000003:00000004", "eui48": "01:02:03:04:05:06",
                    "float32": 1.5}.get(t, 7)
            b.set_model_data(0, b"\0\1" + ref.encode(t, good, case["len"]) + b"\0\2")
            m.read_points()
            if t == "string":
                good = good[:2 * w]
            eq(pt.value_base, good, "value before")
            b.set_model_data(0, b"\x5a\x5a" + raw + b"\xa5\xa5")
        m.read_points()
        eq(pt.value_base, want, "%s registers %s" % (t, raw.hex()))
        if t in ref.SCALABLE and case["sf"]:
            close_to(pt.value, ref.scaled(want, int(case["sf"])), "value")
        else:
            eq(pt.value, want, "value")
        eq(m.points["Before"].value, 0x5a5a, "neighbour point")
        # the attribute level sees no value either
        if t not in ("sunssf",):
            eq(m.points["P"].value is None, want is None, "value present")


@st.composite
def pics_marker_case(draw):
    c = draw(marker_case())
    c["impl_attr"] = draw(st.sampled_from([None, None, "true", "false"]))
    c["hex"] = draw(st.booleans())
    return c


def xml_ok(s):
    return all(ord(ch) >= 32 for ch in s) and s.strip() == s


@part("C02", "pics", lambda tier: pics_marker_case(), quick=600,
      rule="the same patterns given as point text in a PICS document, decimal or hex, with impl attribute absent/true/false; "
           "non-trivial: marker or neighbour or impl=false")
def c02_pics(case, rec):
    t = case["type"]
    raw = bytes.fromhex(case["raw"])
    c = ref.NAT[t][1]
    value = ref.decode(t, raw)
    if c in "hHiIqQ" and len(c) == 1:
        v = struct.unpack(">" + c, raw)[0]
        text = hex(v) if case["hex"] else str(v)
    elif t == "float32":
        f = struct.unpack(">f", raw)[0]
        text = "nan" if f != f else repr(f)
    elif value is None and t == "eui48" and raw[2:] == b"\xff" * 6:
        text = "FF:FF:FF:FF:FF:FF"
    elif value is None or not xml_ok(value) or value == "":
        text = None
        value = None
    else:
        text = value
    implemented = case["impl_attr"] != "false" and value is not None and text is not None
    rec.label(t, "impl" if implemented else "noimpl", "attr-%s" % case["impl_attr"])
    rec.nontrivial(not implemented or value in (0, 1))
    wc = one_point_case(case, raw)
    with bench.bench(wc):
        import xml.etree.ElementTree as ET
        dev = ET.Element("device")
        me = ET.SubElement(dev, "model", {"id": "321", "len": str(wc["models"][0]["len"])})
        be = ET.SubElement(me, "block")
        a = {"id": "P"}
        if case["impl_attr"]:
            a["impl"] = case["impl_attr"]
        ET.SubElement(be, "point", a).text = text
        d = sut.device.Device()
        d.from_pics(element=dev)
        m = d.models_list[0]
        eq(m.load_error, None, "load error")
        pt = m.points["P"] if t != "sunssf" else m.points_sf["P"]
        if implemented:
            eq(pt.value_base, value, "value of %r" % text)
            eq(bool(pt.impl), True, "impl of %r" % text)
        else:
            eq(pt.value_base, None, "value of %r (impl=%s)" % (text, case["impl_attr"]))
            if text is not None or case["impl_attr"] == "false":
                eq(bool(pt.impl), False, "impl of %r (attr %s)" % (text, case["impl_attr"]))


# --------------------------------------------------------------------------------- C03

@st.composite
def sf_case(draw):
    c = draw(bench.device_case(max_models=2, unknown=False, fixed_kw=dict(types=gen.NUM_WEIGHTED, min_points=1, max_points=10),
                               rep_kw=dict(types=gen.NUM_WEIGHTED, min_points=0, max_points=6), max_rep=3, extra=True))
    c["reads"] = [[gen.refill({d["id"]: d for d in c["defs"]}[m["id"]], m["len"], draw) for m in c["models"]]
                  for _ in range(draw(st.integers(0, 2)))]
    return c


def check_read_state(cm, d, length, data, what=""):
    """cm's points hold exactly what `data` says. -> counts"""
    vals, sfs = ref.read_values(d, length, data)
    n = nsf = nnone = 0
    lay = ref.layout(d, length)
    eq(len(cm.blocks), len(lay), "%snumber of blocks" % what)
    for i, o, b in lay:
        blk = cm.blocks[i]
        for p in b["points"]:
            if p["type"] == "pad":
                continue
            key = (i, p["id"])
            if p["type"] == "sunssf":
                eq(blk.points_sf[p["id"]].value_base, sfs[key], "%sscale factor %s of block %d" % (what, p["id"], i))
                continue
            raw, sf = vals[key]
            pt = blk.points[p["id"]]
            eq(pt.value_base, raw, "%sraw value of %s (%s) of block %d" % (what, p["id"], p["type"], i))
            if raw is None:
                nnone += 1
                eq(pt.value, None, "%svalue of unimplemented %s of block %d" % (what, p["id"], i))
                continue
            n += 1
            if sf:
                nsf += 1
                close_to(pt.value, ref.scaled(raw, sf), "%svalue of %s of block %d (raw %r, scale factor %r)" % (what, p["id"], i, raw, sf))
            else:
                eq(pt.value, raw, "%svalue of %s of block %d (scale factor %r)" % (what, p["id"], i, sf))
    return n, nsf, nnone


def sf_labels(rec, d):
    for blk, index in ((d["fixed"], 0), (d["repeating"], 1)):
        for p in (blk or {"points": []})["points"]:
            r = ref.resolve_sf(d, index, blk, p) if p.get("sf") else None
            if r:
                rec.label("const" if r[0] == "const" else "local" if r[1] == index else "from-fixed")


@part("C03", "read", lambda tier: sf_case(), quick=500,
      rule="definitions with constant, local and fixed-block scale factors in fixed and repeating blocks, all contents "
           "including unimplemented points and scale factors, up to 3 reads with changed contents; non-trivial: at least one "
           "scaled value")
def c03(case, rec):
    defs = {d["id"]: d for d in case["defs"]}
    for d in case["defs"]:
        sf_labels(rec, d)
    rec.label("reads-%d" % (1 + len(case["reads"])))
    scaled = 0
    with bench.bench(case) as b:
        b.open()
        ms = b.add_models()
        rounds = [[m["data"] for m in case["models"]]] + case["reads"]
        for k, contents in enumerate(rounds):
            for j, h in enumerate(contents):
                if k:
                    b.set_model_data(j, bytes.fromhex(h))
            b.cd.read_points()
            for j, h in enumerate(contents):
                m = case["models"][j]
                n, nsf, nn = check_read_state(ms[j], defs[m["id"]], m["len"], bytes.fromhex(h), "read %d: " % k)
                scaled += nsf
                if nn:
                    rec.label("unimplemented")
    rec.nontrivial(scaled > 0)


FACTORS = list(range(-10, 11))


def factor_cases(tier):
    for t in [t for t in ref.SCALABLE if t not in ("pad", "sunssf")]:
        for where in ("const", "local", "fixed"):
            yield {"type": t, "where": where}


@enumerated("C03", "every-factor", factor_cases,
            rule="each type that can have a scale factor, with every factor from -10 to 10 as a constant, of its own block or of the fixed "
                 "block, and values over the range of the type with the mark of an unimplemented point among them; every case")
def c03factors(case, rec):
    t = case["type"]
    w = ref.width(t, None)
    edge = 1 << 16 * w
    raws = sorted({x % edge for k in range(16 * w) for x in ((1 << k) - 1, 1 << k, -(1 << k), (1 << k) + 1, 37 << k)} | {0, 3, 7, 999, 1000, ref.MARKER[t]})
    sfs = [{"id": "S%d" % k, "offset": n, "type": "sunssf"} for n, k in enumerate(FACTORS)]
    fixed = [] if case["where"] != "fixed" else sfs
    rep = list(sfs) if case["where"] == "local" else []
    o = len(rep)
    for n, k in enumerate(FACTORS):
        rep.append({"id": "P%d" % n, "offset": o, "type": t, "sf": str(k) if case["where"] == "const" else "S%d" % k})
        o += w
    d = {"id": 64400, "name": None, "len": len(fixed) + o, "fixed": {"len": len(fixed), "name": None, "points": fixed},
         "repeating": {"len": o, "name": None, "points": rep}}
    head = struct.pack(">21h", *FACTORS)
    data = head if fixed else b""
    for x in raws:
        data += (head if case["where"] == "local" else b"") + x.to_bytes(2 * w, "big") * 21
    length = len(data) // 2
    with bench.bench({"transport": "mapped", "base": 40000, "unit": 1, "defs": [d], "models": [{"id": 64400, "len": length, "data": data.hex()}]}) as b:
        b.open()
        m = b.add_models()[0]
        m.read_points()
        n, nsf, nn = check_read_state(m, d, length, data)
        eq(n + nn, 21 * len(raws), "values")
    rec.label(t, case["where"])
    rec.nontrivial(nsf > 0)


@st.composite
def sf_pics_case(draw):
    d = draw(gen.definition(mid=draw(st.integers(2, 500)), fixed_kw=dict(types=gen.NUM_WEIGHTED, min_points=1, max_points=8),
                            rep_kw=dict(types=gen.NUM_WEIGHTED, min_points=1, max_points=5)))
    m = draw(gen.model_image(d, max_rep=3, xmlsafe=True))
    return {"defs": [d], "models": [m]}


def pics_for(d, length, data, all_blocks=True):
    """A PICS device element holding the model's register contents (independent writer)."""
    import xml.etree.ElementTree as ET
    me = ET.Element("model", {"id": str(d["id"]), "len": str(length)})
    for i, o, b in ref.layout(d, length):
        if not all_blocks and i > 1:
            break
        a = {}
        if i > 0:
            a["type"] = "repeating"
            if all_blocks:
                a["index"] = str(i)
        be = ET.SubElement(me, "block", a)
        for p in b["points"]:
            if p["type"] == "pad":
                continue
            at = (o + p["offset"]) * 2
            raw = ref.decode(p["type"], data[at:at + 2 * ref.pw(p)])
            pa = {"id": p["id"]}
            if raw is None:
                pa["impl"] = "false"
            pe = ET.SubElement(be, "point", pa)
            if raw is not None:
                pe.text = repr(raw) if isinstance(raw, float) else str(raw)
    return me


@part("C03", "pics", lambda tier: sf_pics_case(), quick=300,
      rule="the same, the contents given as a PICS document; non-trivial: at least one scaled value")
def c03_pics(case, rec):
    import xml.etree.ElementTree as ET
    d, m = case["defs"][0], case["models"][0]
    data = bytes.fromhex(m["data"])
    sf_labels(rec, d)
    case = dict(case, transport="mapped", base=40000)
    with bench.bench(case):
        de = ET.Element("device")
        de.append(pics_for(d, m["len"], data))
        dev = sut.device.Device()
        dev.from_pics(element=de)
        n, nsf, nn = check_read_state(dev.models_list[0], d, m["len"], data, "PICS: ")
    rec.nontrivial(nsf > 0)


# --------------------------------------------------------------------------------- C04

SET_INTS = ["int16", "uint16", "count", "acc16", "enum16", "bitfield16", "int32", "uint32", "acc32", "enum32",
            "bitfield32", "ipaddr", "int64", "uint64", "acc64"]


def settable(d, length, data):
    """[(block, id, point, sf)] of points holding a value after reading data"""
    vals, sfs = ref.read_values(d, length, data)
    out = []
    for i, o, b in ref.layout(d, length):
        for p in b["points"]:
            if ref.is_value_point(p) and vals[(i, p["id"])][0] is not None:
                out.append((i, p["id"], p, vals[(i, p["id"])][1]))
    return out


@st.composite
def set_case(draw):
    c = draw(bench.device_case(max_models=2, unknown=False, max_defs=1, scale_safe=1 << 46,
                               fixed_kw=dict(types=gen.NUM_WEIGHTED + SET_INTS + ["string", "float32", "eui48", "ipv6addr"], min_points=2, max_points=9),
                               rep_kw=dict(types=gen.NUM_WEIGHTED + SET_INTS, min_points=1, max_points=5), max_rep=2))
    defs = {d["id"]: d for d in c["defs"]}
    cand = []
    for j, m in enumerate(c["models"]):
        for i, pid, p, sf in settable(defs[m["id"]], m["len"], bytes.fromhex(m["data"])):
            cand.append((j, i, pid, p, sf))
    c["sets"] = []
    if not cand:
        return c
    for _ in range(draw(st.integers(1, 6))):
        j, i, pid, p, sf = cand[draw(st.integers(0, len(cand) - 1))]
        t = p["type"]
        form = "value"
        if t == "string":
            v = draw(st.text(alphabet=gen.PLAIN + "é ", min_size=1, max_size=2 * ref.pw(p)))
        elif t == "float32":
            v = draw(st.floats(width=32, allow_nan=False, allow_infinity=False))
        elif t == "ipv6addr":
            v = ref.decode(t, draw(st.binary(min_size=16, max_size=16))) or "00000000:00000000:00000000:00000001"
        elif t == "eui48":
            v = ":".join("%02X" % x for x in draw(HEX6))
        else:
            lo, hi = ref.int_range(t)
            if sf:
                lo, hi = max(lo, -(1 << 46)), min(hi, 1 << 46)
                form = draw(st.sampled_from(["same", "step", "frac", "frac", "text"]))
                raw = draw(st.one_of(st.integers(lo, hi), st.integers(max(lo, -2000), min(hi, 2000))))
                if form == "same":
                    v = None
                elif form == "step":
                    v = raw * math.pow(10, sf)
                elif form == "text":
                    v = repr(raw * math.pow(10, sf))
                else:
                    frac = draw(st.sampled_from([-0.49, -0.4, -0.25, -0.1, 0.1, 0.25, 0.3, 0.4, 0.49]))
                    raw = min(max(raw, lo + 1), hi - 1)
                    v = (raw + frac) * math.pow(10, sf)
            else:
                v = draw(int_values(t))
                form = draw(st.sampled_from(["value", "dec", "hex", "same"]))
                if form == "dec":
                    v = str(v)
                elif form == "hex":
                    v = hex(v)
                elif form == "same":
                    v = None
        c["sets"].append({"model": j, "block": i, "id": pid, "form": form, "v": v})
    return c


def step_cases(tier):
    for t in ("int16", "uint16", "acc32", "int32", "uint64"):
        for k in FACTORS:
            if k:
                yield {"type": t, "factor": k}


@enumerated("C04", "every-step", step_cases,
            rule="for each factor from -10 to 10 every 16-bit raw value (and as many of the longer types), set as its scaled value and by "
                 "-0.4..0.4 steps off it; every case")
def c04steps(case, rec):
    t, k = case["type"], case["factor"]
    w = ref.width(t, None)
    d = {"id": 64401, "name": None, "len": w + 1,
         "fixed": {"len": w + 1, "name": None, "points": [{"id": "P", "offset": 0, "type": t, "sf": "S", "access": "rw"}, {"id": "S", "offset": w, "type": "sunssf"}]}}
    data = (5).to_bytes(2 * w, "big") + struct.pack(">h", k)
    lo, hi = ref.int_range(t)
    if w == 1:
        raws = range(lo, hi + 1)
    else:
        lo, hi = max(lo, -(1 << 44)), min(hi, 1 << 44)
        raws = [lo + (hi - lo) * n // 6000 for n in range(6001)] + list(range(max(lo, -3000), 3000))
    unit = math.pow(10, k)
    offs = (0.4, -0.4, 0.25, -0.1)
    with bench.bench({"transport": "mapped", "base": 40000, "unit": 1, "defs": [d], "models": [{"id": 64401, "len": w + 1, "data": data.hex()}]}) as b:
        b.open()
        m = b.add_models()[0]
        m.read_points()
        p = m.points["P"]
        for n, x in enumerate(raws):
            p.value = x * unit
            if p.value_base != x or type(p.value_base) is not int:
                fail("%s with scale factor %d set to %r: raw value %r, expected %d", t, k, x * unit, p.value_base, x)
            if n % 4 == 0 and lo < x < hi:
                v = (x + offs[n // 4 % 4]) * unit
                p.value = v
                if p.value_base != x:
                    fail("%s with scale factor %d set to %r: raw value %r, expected %d", t, k, v, p.value_base, x)
                if n % 64 == 0:
                    p.value = repr(v)
                    eq(p.value_base, x, "raw value after setting text %r, scale factor %d" % (repr(v), k))
        eq(m.points_sf["S"].value_base, k, "scale factor")
    rec.label(t)
    rec.nontrivial(True)


def all_points(cd):
    out = {}
    for j, m in enumerate(cd.models_list):
        for k, blk in enumerate(m.blocks):
            for pid, p in list(blk.points.items()) + list(blk.points_sf.items()):
                out[(j, k, pid)] = p
    return out


def states(cd):
    return {k: (p.value_base, p.value_sf, p.dirty) for k, p in all_points(cd).items()}


@part("C04", "set", lambda tier: set_case(), quick=700,
      rule="sequences of sets on points of read models: raw steps, values off the grid by -0.49..0.49 steps, the value just "
           "read, integers over the full range as number, decimal or 0x text, strings, floats, addresses; non-trivial: a set "
           "off the grid, of text, or of a value as read")
def c04(case, rec):
    defs = {d["id"]: d for d in case["defs"]}
    rec.nontrivial(any(s["form"] in ("frac", "dec", "hex", "same", "text", "step") for s in case["sets"]))
    with bench.bench(case) as b:
        b.open()
        b.add_models()
        b.cd.read_points()
        before = states(b.cd)
        for k, v in before.items():
            eq(bool(v[2]), False, "pending flag of %s after a read" % (k,))
        image0 = b.regs()
        dirty = set()
        for s in case["sets"]:
            m = case["models"][s["model"]]
            d = defs[m["id"]]
            key = (s["model"], s["block"], s["id"])
            pt = all_points(b.cd)[key]
            blk = [x for x in ref.layout(d, m["len"]) if x[0] == s["block"]][0][2]
            p = [q for q in blk["points"] if q["id"] == s["id"]][0]
            r = ref.resolve_sf(d, s["block"], blk, p)
            sf = None
            if r:
                vals, sfs = ref.read_values(d, m["len"], bytes.fromhex(m["data"]))
                sf = r[1] if r[0] == "const" else sfs[(r[1], r[2]["id"])]
            rec.label(s["form"], p["type"], "sf" if sf else "nosf")
            prior = states(b.cd)
            v = pt.value if s["form"] == "same" else s["v"]
            pt.value = v
            after = states(b.cd)
            raw = after[key][0]
            what = "set %s (%s, scale factor %r) to %r" % (key, p["type"], sf, v)
            if s["form"] == "same":
                eq(raw, prior[key][0], what + ": raw value")
            elif sf:
                if type(raw) is not int:
                    fail("%s stored %r", what, raw)
                x = float(v) / math.pow(10, sf)
                if abs(raw - x) > 0.5 + 1e-6 + abs(x) * 1e-12:
                    fail("%s stored raw %r, exact would be %r", what, raw, x)
                close = abs(float(pt.value) - float(v))
                if close > 0.5 * math.pow(10, sf) * (1 + 1e-6) + abs(float(v)) * 1e-9:
                    fail("%s reads back %r", what, pt.value)
            else:
                want = int(v, 0) if s["form"] in ("dec", "hex") else v
                eq(raw, want, what + ": raw value")
                eq(pt.value, want, what + ": value")
                if type(raw) is not type(want):
                    fail("%s stored a %s", what, type(raw).__name__)
            eq(bool(after[key][2]), True, what + ": pending")
            for k in prior:
                if k != key:
                    eq(after[k], prior[k], what + " changed point %s" % (k,))
        eq(b.regs(), image0, "device registers after sets only")
