"""C10 transfers, C11/C12 RTU, C13/C14 TCP, C15 TCP connections, C16 RTU ports, C30 tracing."""
import contextlib, io, re, struct
from hypothesis import strategies as st
import harness, ref, fakes
from harness import part, enumerated, eq, fail, expect_error, attempt, no_error
import sut

MErr = sut.modbus.ModbusClientError
PORT = "/dev/fake0"
HOST = ("10.0.0.9", 502)
REG = lambda seed, i: ((seed + 1) * 40503 + i * 2654435 + (i >> 3)) & 0xffff


def make_device(unit, lo, n, seed=0, split_input=False):
    d = fakes.Device(unit=unit)
    d.regs = {a: REG(seed, a) for a in range(lo, lo + n)}
    if split_input:
        d.input_regs = {a: REG(seed + 7, a) for a in range(lo, lo + n)}
    return d


def payload(seed, n):
    return b"".join(struct.pack(">H", REG(seed + 100, i)) for i in range(n))


def open_modbus(case, dev, tmp=None, trace=None):
    w = fakes.world()
    w.pieces = fakes.Pieces(case.get("pieces"))
    t = case["transport"]
    if t == "rtu":
        w.ports[PORT] = [dev]
        return sut.modbus.ModbusClientDeviceRTU(case["unit"], PORT, trace_func=trace, max_count=case.get("max", 125))
    w.hosts[HOST] = [dev]
    return sut.modbus.ModbusClientDeviceTCP(case["unit"], HOST[0], HOST[1], trace_func=trace, max_count=case.get("max", 125))


UNITS = st.one_of(st.sampled_from([1, 2, 247]), st.integers(1, 247), st.sampled_from([248, 255]))
TCP_UNITS = st.one_of(UNITS, st.sampled_from([0, 255, 128]), st.integers(0, 255))
SIZES = st.one_of(st.integers(0, 12), st.sampled_from([122, 123, 124, 125, 126, 246, 247, 248, 250, 251, 375, 376]), st.integers(1, 600))
MAXES = st.one_of(st.just(125), st.just(125), st.integers(1, 125), st.integers(1, 10), st.sampled_from([122, 123, 124]))
ADDRS = st.one_of(st.sampled_from([0, 1, 40000, 50000, 255, 256]), st.integers(0, 64000))
PIECES = st.one_of(st.just([]), st.lists(st.integers(1, 8), min_size=1, max_size=6), st.lists(st.integers(1, 260), min_size=1, max_size=4))


@st.composite
def transfer_case(draw, transports=("rtu", "tcp"), nops=4, sizes=SIZES):
    lo = draw(ADDRS)
    ops = []
    for _ in range(draw(st.integers(1, nops))):
        n = draw(sizes)
        off = draw(st.one_of(st.integers(0, 20), st.integers(0, 300)))
        kind = draw(st.sampled_from(["r", "r", "w", "ri"]))
        ops.append([kind, off, n, draw(st.integers(0, 50))])
    t = draw(st.sampled_from(transports))
    return {"transport": t, "unit": draw(UNITS if t == "rtu" else TCP_UNITS), "lo": lo, "max": draw(MAXES),
            "ops": ops, "pieces": draw(PIECES), "explicit": draw(st.booleans()), "seed": draw(st.integers(0, 99))}


def requests_tile(log, addr, count, limit, func, what):
    """Requests cover [addr, addr+count) once, in order, each 1..limit registers."""
    pos = addr
    for r in log:
        eq(r["func"], func, what + ": function")
        if r["addr"] != pos:
            fail("%s: request for %r registers at %r, expected one starting at %d", what, r["count"], r["addr"], pos)
        if not 1 <= r["count"] <= limit:
            fail("%s: request for %d registers, limit %d", what, r["count"], limit)
        pos += r["count"]
    eq(pos, addr + count, what + ": end of the requested range")


@part("C10", "transfers", lambda tier: transfer_case(), quick=700,
      rule="sequences of holding/input reads and writes of 0..600 registers over RTU and TCP with any max_count; exact data, "
           "device memory and request tiling; non-trivial: some operation needs more than one request")
def c10(case, rec):
    dev = make_device(case["unit"], case["lo"], 950, case["seed"], split_input=True)
    model = dict(dev.regs)
    inp = dict(dev.input_regs)
    d = open_modbus(case, dev)
    rec.label(case["transport"], "max125" if case["max"] == 125 else "max<125")
    multi = False
    if case["transport"] == "tcp" and case["explicit"]:
        d.connect()
    for kind, off, n, seed in case["ops"]:
        a = case["lo"] + off
        mark = len(dev.log)
        if kind == "w":
            data = payload(seed, n)
            r = d.write(a, data)
            eq(r, None, "result of write")
            for i in range(n):
                model[a + i] = REG(seed + 100, i)
            lim = min(case["max"], 123)
            requests_tile(dev.log[mark:], a, n, lim, 16, "write of %d registers at %d (max %d)" % (n, a, case["max"]))
        else:
            mem = model if kind == "r" else inp
            func = 3 if kind == "r" else 4
            want = b"".join(struct.pack(">H", mem[a + i]) for i in range(n))
            got = d.read(a, n) if kind == "r" else d.read(a, n, op=4)
            if not isinstance(got, bytes):
                fail("read returned a %s", type(got).__name__)
            eq(got, want, "read of %d registers at %d (max %d)" % (n, a, case["max"]))
            lim = min(case["max"], 125)
            requests_tile(dev.log[mark:], a, n, lim, func, "read of %d registers at %d (max %d)" % (n, a, case["max"]))
        if n > lim:
            multi = True
            rec.label("multi-" + kind)
        eq(dev.bad_frames, [], "malformed requests")
        if dev.regs != model:
            bad = sorted(x for x in model if dev.regs.get(x) != model[x])
            fail("device registers differ at %s after %s of %d registers at %d", bad[:5], kind, n, a)
    rec.nontrivial(multi)
    d.close()


def size_cases(tier):
    """Every number of registers up to four requests, at the usual maximum and at others."""
    for t in ("rtu", "tcp"):
        for lo, hi, mx in ((1, 510, 125), (1, 60, 1), (1, 60, 2), (1, 60, 7), (100, 130, 124), (240, 260, 124), (120, 128, 123), (240, 250, 123)):
            for n in range(lo, hi + 1):
                yield {"transport": t, "unit": 1, "lo": 40000, "max": mx, "seed": n % 50, "explicit": n % 3 == 0, "pieces": [],
                       "ops": [["r", n % 7, n, 0], ["w", n % 5, n, n % 40], ["ri", n % 3, n, 0]]}


@enumerated("C10", "every-size", size_cases, rule="reads and writes of every number of registers from 1 to 510, and around the limits of other maximum counts; "
            "non-trivial: more than one request")
def c10sizes(case, rec):
    c10(case, rec)


def edge_cases(tier):
    """Transfers up to the last register there is, and across every power of two."""
    for t in ("rtu", "tcp"):
        for n in (1, 2, 3, 7, 123, 124, 125, 126, 246, 247, 250, 251, 500):
            for mx in (125, 1) if n < 8 else (125, 124):
                yield {"transport": t, "unit": 1, "lo": 65536 - 950, "max": mx, "seed": n % 50, "explicit": n % 3 == 0, "pieces": [],
                       "ops": [["r", 950 - n, n, 0], ["w", 950 - n, n, n % 40], ["ri", 950 - n, n, 0]]}
        for k in range(6, 16):
            for d in (0, 1, 2):
                if (1 << k) - d >= 0:
                    yield {"transport": t, "unit": 1, "lo": max(0, (1 << k) - 200), "max": 125, "seed": k, "explicit": k % 2 == 0, "pieces": [],
                           "ops": [[o, min((1 << k), 200) - d, n, k] for n in (1, 2, 3) for o in ("r", "w", "ri")]}


@enumerated("C10", "edges", edge_cases, rule="reads and writes of 1 to 500 registers up to the last register, 65535, and of 1 to 3 registers around every power of two; "
            "non-trivial: more than one request")
def c10edges(case, rec):
    c10(case, rec)


def unit_cases(transport):
    for u in range(1 if transport == "rtu" else 0, 256):
        yield {"transport": transport, "unit": u, "lo": [0, 40000][u % 2], "max": 125, "seed": u % 50, "explicit": u % 3 == 0, "pieces": [[], [1], [3, 5]][u % 3],
               "ops": [["r", u % 7, 1 + u % 9, 0], ["w", u % 5, 1 + u % 4, u % 40], ["ri", 0, 2, 0]]}


@st.composite
def long_case(draw):
    t = draw(st.sampled_from(["rtu", "tcp", "mapped"]))
    n = draw(st.one_of(st.integers(600, 6000), st.sampled_from([1000, 1024, 2048, 4096, 8192, 16384, 32767, 32768, 40000, 65535, 65536])))
    lo = draw(st.sampled_from([0, 1, 40000, 50000, 32768]))
    lo = min(lo, 65536 - n)
    return {"transport": t, "unit": 1, "lo": lo, "n": n, "max": draw(st.sampled_from([125, 125, 123, 100, 64])), "seed": draw(st.integers(0, 99)),
            "split": draw(st.integers(0, n)), "op": draw(st.sampled_from([3, 4]))}


@part("C10", "long", lambda tier: long_case(), quick=60,
      rule="reads and writes of 600 registers up to the whole address space in one operation; all non-trivial")
def c10long(case, rec):
    lo, n, op = case["lo"], case["n"], case["op"]
    data = payload(case["seed"] + 1, n)
    rec.nontrivial(True)
    rec.label(case["transport"], "over %d" % (10 ** (len(str(n)) - 1)))
    if case["transport"] == "mapped":
        with harness.scratch() as tmp:
            raw = payload(case["seed"], n)
            k = case["split"] if 0 < case["split"] < n else n
            with open(tmp + "/map.xml", "wb") as f:
                f.write(ref.mbmap_xml(lo, [(0, raw[:2 * k])] + ([(k, raw[2 * k:])] if k < n else [])))
            d = sut.modbus.ModbusClientDeviceMapped(1, tmp + "/map.xml")
            eq(d.read(lo, n), raw, "mapped read of %d registers at %d" % (n, lo))
            d.write(lo, data)
            eq(d.read(lo, n), data, "mapped read of %d registers at %d after a write" % (n, lo))
            d.close()
        return
    dev = make_device(1, lo, n, case["seed"], split_input=True)
    dev.budget = 10000
    d = open_modbus(case, dev)
    mem = dev.regs if op == 3 else dev.input_regs
    want = b"".join(struct.pack(">H", mem[lo + i]) for i in range(n))
    if d.read(lo, n, op=op) != want:
        fail("read of %d registers at %d (max %d)", n, lo, case["max"])
    requests_tile(dev.log, lo, n, case["max"], op, "read of %d registers at %d (max %d)" % (n, lo, case["max"]))
    mark = len(dev.log)
    d.write(lo, data)
    if dev.get(lo, n) != data:
        fail("registers of the device after a write of %d registers at %d (max %d)", n, lo, case["max"])
    requests_tile(dev.log[mark:], lo, n, min(case["max"], 123), 16, "write of %d registers at %d (max %d)" % (n, lo, case["max"]))
    eq(dev.bad_frames, [], "malformed requests")
    d.close()


@st.composite
def mapped_transfer(draw):
    n1 = draw(st.integers(1, 400))
    n2 = draw(st.integers(0, 300))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        off = draw(st.integers(0, n1 + n2 - 1))
        ops.append([draw(st.sampled_from(["r", "w"])), off, draw(st.integers(0, n1 + n2 - off)), draw(st.integers(0, 50))])
    return {"n1": n1, "n2": n2, "base": draw(st.sampled_from([0, 40000, 50000, 17])), "ops": ops, "access2": draw(st.sampled_from(["r", "rw"]))}


@part("C10", "mapped", lambda tier: mapped_transfer(), quick=300,
      rule="the same through a mapped device; non-trivial: an operation on more than 125 registers")
def c10m(case, rec):
    n = case["n1"] + case["n2"]
    regs = [REG(3, i) for i in range(n)]
    raw = b"".join(struct.pack(">H", v) for v in regs)
    with harness.scratch() as tmp:
        path = tmp + "/map.xml"
        with open(path, "wb") as f:
            f.write(ref.mbmap_xml(case["base"], [(0, raw[:2 * case["n1"]])] + ([(case["n1"], raw[2 * case["n1"]:])] if case["n2"] else [])))
        d = sut.modbus.ModbusClientDeviceMapped(1, path)
        for kind, off, c, seed in case["ops"]:
            a = case["base"] + off
            if kind == "w":
                data = payload(seed, c)
                d.write(a, data)
                for i in range(c):
                    regs[off + i] = REG(seed + 100, i)
            else:
                want = b"".join(struct.pack(">H", v) for v in regs[off:off + c])
                eq(d.read(a, c), want, "mapped read of %d at offset %d" % (c, off))
            eq(d.read(case["base"], n), b"".join(struct.pack(">H", v) for v in regs), "whole map after %s %d at %d" % (kind, c, off))
        d.close()
    rec.nontrivial(any(o[2] > 125 for o in case["ops"]))


# --------------------------------------------------------------------------------- C11

@st.composite
def rtu_case(draw):
    c = draw(transfer_case(transports=("rtu",), sizes=st.one_of(st.integers(1, 8), st.integers(1, 125), st.sampled_from([123, 124, 125, 130, 256]))))
    c["stale"] = draw(st.binary(max_size=12)).hex()
    return c


@part("C11", "frames", lambda tier: rtu_case(), quick=700,
      rule="operations on generated slave ids, addresses, counts and data, replies delivered in generated pieces, stale bytes in "
           "the input buffer before each request; non-trivial: fragmented reply or stale bytes")
def c11(case, rec):
    dev = make_device(case["unit"], case["lo"], 950, case["seed"], split_input=True)
    w = fakes.world()
    w.stale = bytes.fromhex(case["stale"])
    d = open_modbus(case, dev)
    rec.nontrivial(bool(case["pieces"]) or bool(case["stale"]))
    rec.label("stale" if case["stale"] else "clean", "pieces" if case["pieces"] else "whole")
    model = dict(dev.regs)
    for kind, off, n, seed in case["ops"]:
        a = case["lo"] + off
        mark = len(dev.raw_log)
        if kind == "w":
            data = payload(seed, n)
            d.write(a, data)
            pos = 0
            for raw, r in zip(dev.raw_log[mark:], dev.log[mark:]):
                k = r["count"]
                eq(raw, ref.rtu_frame(ref.write_req(case["unit"], a + pos, data[2 * pos:2 * (pos + k)])), "write frame")
                pos += k
            eq(pos, n, "registers written")
        else:
            mem = dev.regs if kind == "r" else dev.input_regs
            want = b"".join(struct.pack(">H", mem[a + i]) for i in range(n))
            got = d.read(a, n) if kind == "r" else d.read(a, n, op=4)
            eq(got, want, "read of %d at %d in pieces %r" % (n, a, case["pieces"]))
            pos = 0
            for raw, r in zip(dev.raw_log[mark:], dev.log[mark:]):
                eq(raw, ref.rtu_frame(ref.read_req(case["unit"], 3 if kind == "r" else 4, a + pos, r["count"])), "read frame")
                pos += r["count"]
            eq(pos, n, "registers read")
        eq(dev.bad_frames, [], "malformed requests")
    s = w.serials[-1]
    eq(len(s.written), len(dev.raw_log), "number of frames written to the port")
    d.close()


@part("C11", "crc", lambda tier: st.fixed_dictionaries({"data": st.one_of(st.binary(max_size=300), st.binary(max_size=300), st.tuples(st.binary(min_size=1, max_size=40), st.integers(2, 200)).map(lambda t: t[0] * t[1])).map(bytes.hex), "bad": st.integers(1, 0xffff)}), quick=800,
      rule="byte strings; CRC against a bitwise implementation, as bytes and as text; non-trivial: not empty")
def c11crc(case, rec):
    data = bytes.fromhex(case["data"])
    c = ref.crc16(data)
    want = ((c & 0xff) << 8) | (c >> 8)
    eq(sut.modbus.computeCRC(data), want, "CRC of bytes")
    eq(sut.modbus.computeCRC(data.decode("latin-1")), want, "CRC of text")
    eq(bool(sut.modbus.checkCRC(data, want)), True, "check of the right CRC")
    eq(bool(sut.modbus.checkCRC(data, want ^ case["bad"])), False, "check of a wrong CRC")
    rec.nontrivial(len(data) > 0)


@enumerated("C11", "crc-lengths", lambda tier: [{"n": n} for n in list(range(0, 1030)) + [1 << k for k in range(11, 17)]],
            rule="byte strings of every length up to 1029 and some longer ones; every case")
def c11crcn(case, rec):
    n = case["n"]
    data = bytes((i * i * 7 + i * 31 + n) & 0xff for i in range(n))
    c = ref.crc16(data)
    want = ((c & 0xff) << 8) | (c >> 8)
    eq(sut.modbus.computeCRC(data), want, "CRC of %d bytes" % n)
    eq(sut.modbus.computeCRC(data.decode("latin-1")), want, "CRC of %d characters" % n)
    eq(bool(sut.modbus.checkCRC(data, want)), True, "check of the right CRC of %d bytes" % n)
    eq(bool(sut.modbus.checkCRC(data, want ^ (1 << n % 16))), False, "check of a wrong CRC of %d bytes" % n)


@enumerated("C11", "crc-bytes", lambda tier: [{"b": b} for b in range(256)], rule="every single byte, alone and after others")
def c11crcb(case, rec):
    for data in (bytes([case["b"]]), bytes([1, case["b"]]), bytes([case["b"], 255, 0])):
        c = ref.crc16(data)
        eq(sut.modbus.computeCRC(data), ((c & 0xff) << 8) | (c >> 8), "CRC of %s" % data.hex())


def split_cases(transport):
    """Every way to deliver the reply of a small operation in pieces."""
    head, tail = (1, 2) if transport == "rtu" else (7, 0)
    out = []
    for op, n, code, size in (("r", 1, None, 4), ("ri", 1, None, 4), ("w", 1, None, 5), ("r", 1, 2, 2), ("w", 1, 2, 2), ("r", 2, None, 6)):
        total = head + size + tail
        if total > 12:
            continue
        for mask in range(1 << (total - 1)):
            pieces, k = [], 1
            for b in range(total - 1):
                if mask >> b & 1:
                    pieces.append(k)
                    k = 1
                else:
                    k += 1
            out.append({"transport": transport, "op": op, "n": n, "code": code, "pieces": pieces + [k]})
    return out


def check_split(case, rec):
    w = fakes.world()
    dev = make_device(5, 100, 10, 3, split_input=True)
    d = open_modbus({"transport": case["transport"], "unit": 5, "pieces": case["pieces"]}, dev)
    run, want = do_op(d, dev, [case["op"], 2, case["n"], 4], 100)
    what = "%s of %d registers, reply in pieces %r" % (case["op"], case["n"], case["pieces"])
    if case["code"] is not None:
        dev.arm([{"at": 0, "kind": "exception", "code": case["code"]}])
        err = expect_error(MErr, run, what)
        if not isinstance(err, sut.modbus.ModbusClientException) or str(case["code"]) not in re.findall(r"\d+", str(err)):
            fail("%s: exception reply reported as %s: %s", what, type(err).__name__, err)
        dev.disarm()
    else:
        eq(no_error(run, what), want, what)
    w.pieces = fakes.Pieces([])
    run, want = do_op(d, dev, ["r", 1, 3, 0], 100)
    eq(no_error(run, "read after " + what), want, "read after " + what)
    d.close()
    rec.label("exception" if case["code"] else case["op"])
    rec.nontrivial(len(case["pieces"]) > 1)


@enumerated("C11", "every-split", lambda tier: split_cases("rtu"),
            rule="every way to cut the replies of small reads, writes and exceptions into pieces; non-trivial: more than one piece")
def c11split(case, rec):
    check_split(case, rec)


@enumerated("C13", "every-split", lambda tier: split_cases("tcp"),
            rule="every way to cut the replies of small reads, writes and exceptions into pieces; non-trivial: more than one piece")
def c13split(case, rec):
    check_split(case, rec)


# ---------------------------------------------------------------------------- C12, C14

def rtu_faults(draw, at):
    k = draw(st.sampled_from(["flip", "flip", "unit", "func", "count", "addr", "truncate", "silence", "lost", "exception",
                              "exception", "bytecount", "garbage"]))
    f = {"at": at, "kind": k}
    if k == "flip":
        f["pos"] = draw(st.integers(0, 260))
        f["mask"] = draw(st.integers(1, 255))
    elif k == "unit":
        f["delta"] = draw(st.integers(1, 255))
    elif k == "func":
        f["delta"] = draw(st.sampled_from([1, 2, 3, 13, 12, 127, 126]) | st.integers(1, 127))
    elif k in ("count", "bytecount"):
        f["delta"] = draw(st.sampled_from([-2, -1, 1, 2, 3]) | st.integers(1, 120))
    elif k == "addr":
        f["delta"] = draw(st.integers(1, 65535))
    elif k == "truncate":
        f["n"] = draw(st.integers(0, 12) | st.integers(0, 255))
    elif k == "exception":
        f["code"] = draw(st.sampled_from([1, 2, 3, 4, 6, 11]) | st.integers(1, 255))
    elif k == "garbage":
        f["hex"] = draw(st.binary(min_size=0, max_size=20)).hex()
    return f


def tcp_faults(draw, at):
    k = draw(st.sampled_from(["func", "count", "truncate", "truncate", "silence", "lost", "late", "late", "exception", "exception",
                              "bytecount", "close", "reset", "mbap"]))
    f = {"at": at, "kind": k}
    if k == "func":
        f["delta"] = draw(st.sampled_from([1, 2, 3, 13, 12, 127, 126]) | st.integers(1, 127))
    elif k in ("count", "bytecount"):
        f["delta"] = draw(st.sampled_from([-2, -1, 1, 2, 3]) | st.integers(1, 120))
    elif k == "mbap":
        f["delta"] = draw(st.sampled_from([-3, -2, -1, 1, 2, 3]) | st.integers(1, 300))
    elif k == "truncate":
        f["n"] = draw(st.integers(0, 12) | st.integers(0, 255))
        f["after"] = draw(st.sampled_from(["timeout", "close", "reset"]))
    elif k == "exception":
        f["code"] = draw(st.sampled_from([1, 2, 3, 4, 6, 11]) | st.integers(1, 255))
    return f


@st.composite
def bad_reply_case(draw, transport):
    mx = draw(st.sampled_from([125, 125, 10, 3, 1]) | st.integers(1, 125))
    nreq = draw(st.integers(1, 3))
    kind = draw(st.sampled_from(["r", "r", "ri", "w"]))
    lim = min(mx, 123) if kind == "w" else mx
    n = lim * (nreq - 1) + draw(st.integers(1, lim))
    at = draw(st.integers(0, nreq - 1))
    fault = rtu_faults(draw, at) if transport == "rtu" else tcp_faults(draw, at)
    after = [[draw(st.sampled_from(["r", "ri", "w"])), draw(st.integers(0, 20)), draw(st.integers(1, 20)), draw(st.integers(0, 9))]
             for _ in range(draw(st.integers(1, 3)))]
    same_size = draw(st.booleans())
    if same_size:       # a later request that looks just like the failed one
        after[0][0] = kind
        after[0][2] = n
    return {"transport": transport, "unit": draw(UNITS if transport == "rtu" else TCP_UNITS), "lo": draw(st.sampled_from([0, 40000, 50000])), "max": mx,
            "op": [kind, draw(st.integers(0, 20)), n, draw(st.integers(0, 9))], "fault": fault, "after": after,
            "pieces": draw(PIECES), "explicit": draw(st.booleans()), "seed": draw(st.integers(0, 9)),
            "before": draw(st.booleans())}


def do_op(d, dev, op, lo):
    """-> (function performing the op, expected result)"""
    kind, off, n, seed = op
    a = lo + off
    if kind == "w":
        return lambda: d.write(a, payload(seed, n)), None
    mem = dev.regs if kind == "r" else dev.input_regs
    want = b"".join(struct.pack(">H", mem[a + i]) for i in range(n))
    if kind == "r":
        return lambda: d.read(a, n), want
    return lambda: d.read(a, n, op=4), want


def bad_reply(case, rec):
    dev = make_device(case["unit"], case["lo"], 700, case["seed"], split_input=True)
    d = open_modbus(case, dev)
    f = case["fault"]
    rec.label(f["kind"], case["op"][0], "at%d" % f["at"])
    if case["transport"] == "tcp" and case["explicit"]:
        d.connect()
        rec.label("explicit")
    if case["before"]:
        run, want = do_op(d, dev, ["r", 0, 3, 0], case["lo"])
        eq(run(), want, "read before the fault")
    dev.arm([f])
    run, want = do_op(d, dev, case["op"], case["lo"])
    mark = len(dev.log)
    err = expect_error(MErr, run, "%s with fault %r" % (case["op"], f))
    hit = [r for r in dev.log[mark:] if r["fault"]]
    if not hit:
        raise Vac("fault not reached: %s" % err)
    if f["kind"] == "exception":
        if not isinstance(err, sut.modbus.ModbusClientException):
            fail("exception reply raised %s: %s", type(err).__name__, err)
        if str(f["code"]) not in re.findall(r"\d+", str(err)):
            fail("exception reply %d reported as %r", f["code"], str(err))
    elif f["kind"] in ("silence", "lost", "late"):
        if not isinstance(err, sut.modbus.ModbusClientTimeout):
            fail("no reply raised %s: %s instead of a time-out", type(err).__name__, err)
    elif isinstance(err, sut.modbus.ModbusClientException) and f["kind"] not in ("flip", "garbage"):
        fail("%s raised an exception-reply error: %s", f["kind"], err)
    dev.disarm()
    for i, op in enumerate(case["after"]):
        run, want = do_op(d, dev, op, case["lo"])
        got = no_error(run, "operation %d %r after fault %r" % (i, op, f))
        eq(got, want, "result of operation %d %r after fault %r" % (i, op, f))
        if op[0] == "w":
            eq(dev.get(case["lo"] + op[1], op[2]), payload(op[3], op[2]), "registers after the write")
    eq(dev.bad_frames, [], "malformed requests")
    d.close()


class Vac(harness.HarnessError):
    pass


@part("C12", "bad-reply", lambda tier: bad_reply_case("rtu"), quick=900,
      rule="read or write of 1..3 requests with one bad reply (flipped bits, other slave/function/count/address with valid CRC, "
           "truncation, silence, exception 1..255, garbage) at any of them, then 1..3 good operations; all non-trivial")
def c12(case, rec):
    bad_reply(case, rec)


@part("C14", "bad-reply", lambda tier: bad_reply_case("tcp"), quick=900,
      rule="the same over TCP with truncation, peer close, reset, silence, late replies, on implicit or explicit connections; "
           "all non-trivial")
def c14(case, rec):
    bad_reply(case, rec)


def exception_cases(transport):
    """Every exception code as the reply to the first or the last request of an operation."""
    for op in ("r", "ri", "w"):
        for at in (0, 1):
            for code in range(256):
                yield {"transport": transport, "unit": 1 + code % 247, "lo": [0, 40000][code % 2], "max": 3, "op": [op, code % 20, 3 * at + 1 + code % 3, code % 10],
                       "fault": {"at": at, "kind": "exception", "code": code}, "after": [[op, code % 20, 3 * at + 1 + code % 3, 1]],
                       "pieces": [[], [1], [4, 1, 2], [8, 1]][code % 4], "explicit": code % 3 == 0, "seed": code % 7, "before": code % 5 == 0}


@enumerated("C12", "every-exception", lambda tier: exception_cases("rtu"), rule="every exception code to reads and writes, in the first or a later request; all non-trivial")
def c12exception(case, rec):
    bad_reply(case, rec)


@enumerated("C14", "every-exception", lambda tier: exception_cases("tcp"), rule="every exception code to reads and writes, in the first or a later request; all non-trivial")
def c14exception(case, rec):
    bad_reply(case, rec)


def altered_cases(transport):
    """Every single byte of the reply to a small operation altered in every way."""
    out = []
    for op, n in (("r", 1), ("r", 3), ("ri", 2), ("w", 1), ("w", 3)):
        size = 5 if op == "w" else 2 + 2 * n
        if transport == "rtu":
            for pos in range(1 + size + 2):
                out.append({"op": op, "n": n, "pos": pos, "crc": False})
            for pos in range(6 if op == "w" else 3):            # not the data, which cannot be told from other data
                out.append({"op": op, "n": n, "pos": pos, "crc": True})
        else:
            for pos in [4, 5] + list(range(7, 12 if op == "w" else 9)):
                out.append({"op": op, "n": n, "pos": pos, "crc": True})
    return out


def check_altered(case, rec, transport):
    dev = make_device(5, 100, 10, 3, split_input=True)
    d = open_modbus({"transport": transport, "unit": 5}, dev)
    for mask in range(1, 256):
        if transport == "tcp" and case["pos"] == 4 and mask > 3:
            break               # longer and longer than anything that could come
        run, want = do_op(d, dev, [case["op"], 2, case["n"], 4], 100)
        dev.arm([{"at": 0, "kind": "xor", "pos": case["pos"], "mask": mask, "crc": case["crc"]}])
        what = "%s of %d registers, reply byte %d xor 0x%02x%s" % (
            case["op"], case["n"], case["pos"], mask, "" if transport == "tcp" else ", right CRC" if case["crc"] else ", wrong CRC")
        e = expect_error(MErr, run, what)
        if transport == "rtu" and not case["crc"] and isinstance(e, sut.modbus.ModbusClientException):
            fail("%s: reported as an exception reply: %s", what, e)
        dev.disarm()
        run, want = do_op(d, dev, ["r", 1, 3, 0], 100)
        eq(no_error(run, "read after " + what), want, "read after " + what)
    d.close()
    rec.label(case["op"], "right-crc" if case["crc"] else "wrong-crc")
    rec.nontrivial(True)


@enumerated("C12", "every-byte", lambda tier: altered_cases("rtu"),
            rule="every byte of the replies to small reads and writes altered in all 255 ways, with the CRC left wrong or made right "
                 "again (then not the data), each followed by a good read; all non-trivial")
def c12b(case, rec):
    check_altered(case, rec, "rtu")


def crc_cases(tier):
    for i, (op, n, code) in enumerate((("r", 2, None), ("w", 2, None), ("ri", 1, 2), ("w", 1, 4))):
        for hi in range(256):
            if tier == "thorough" or hi in (0, 1, 255) or hi % 4 == i:
                yield {"op": op, "n": n, "code": code, "hi": hi}


@enumerated("C12", "every-crc", crc_cases,
            rule="replies and exception replies to small reads and writes with wrong CRCs, taken together of every value (thorough: every "
                 "value for each kind), and a good read; all non-trivial")
def c12crc(case, rec):
    dev = make_device(5, 100, 10, 3, split_input=True)
    d = open_modbus({"transport": "rtu", "unit": 5}, dev)
    op = case["op"]
    run, want = do_op(d, dev, [op, 2, case["n"], 4], 100)
    func = {"r": 3, "ri": 4, "w": 16}[op]
    if case["code"] is not None:
        pdu = bytes([5, func | 0x80, case["code"]])
    elif op == "w":
        pdu = struct.pack(">BBHH", 5, 16, 102, case["n"])
    else:
        pdu = bytes([5, func, 2 * case["n"]]) + want
    good = struct.unpack(">H", ref.rtu_frame(pdu)[-2:])[0]
    values = {case["hi"] << 8 | lo for lo in range(256)}
    for v in (good >> 8 | (good & 0xff) << 8, good ^ 0xffff, good + 1 & 0xffff):     # swapped, inverted, next
        values.add(v)
    for v in sorted(values - {good}):
        dev.arm([{"at": 0, "kind": "setcrc", "code": case["code"], "value": v}])
        e = expect_error(MErr, run, "%s with CRC %04x instead of %04x" % (op, v, good))
        if isinstance(e, sut.modbus.ModbusClientException):
            fail("%s with CRC %04x instead of %04x reported as an exception reply: %r", op, v, good, e)
    dev.disarm()
    run, want = do_op(d, dev, ["r", 1, 3, 0], 100)
    eq(no_error(run, "read after wrong CRCs"), want, "read after wrong CRCs")
    d.close()
    rec.label(op, "exception" if case["code"] else "normal")
    rec.nontrivial(True)


@enumerated("C14", "every-byte", lambda tier: altered_cases("tcp"),
            rule="every byte of length, function, byte count, address and count of the replies to small reads and writes altered in all "
                 "ways, each followed by a good read; all non-trivial")
def c14b(case, rec):
    check_altered(case, rec, "tcp")


# --------------------------------------------------------------------------------- C13

@st.composite
def tcp_case(draw):
    c = draw(transfer_case(transports=("tcp",), nops=6, sizes=st.one_of(st.integers(1, 8), st.integers(1, 125), st.sampled_from([123, 124, 125, 130, 256]))))
    return c


@part("C13", "frames", lambda tier: tcp_case(), quick=700,
      rule="sequences of operations on generated units, addresses, counts and data, on one connection or one each, replies split "
           "into generated pieces; non-trivial: split replies or several operations on one connection")
def c13(case, rec):
    dev = make_device(case["unit"], case["lo"], 950, case["seed"], split_input=True)
    d = open_modbus(case, dev)
    if case["explicit"]:
        d.connect()
    rec.nontrivial(bool(case["pieces"]) or (case["explicit"] and len(case["ops"]) > 1))
    rec.label("explicit" if case["explicit"] else "implicit", "pieces" if case["pieces"] else "whole")
    w = fakes.world()
    for kind, off, n, seed in case["ops"]:
        a = case["lo"] + off
        mark = len(dev.raw_log)
        run, want = do_op(d, dev, [kind, off, n, seed], case["lo"])
        got = run()
        eq(got, want, "result of %s %d at %d in pieces %r" % (kind, n, a, case["pieces"]))
        pos = 0
        for raw, r in zip(dev.raw_log[mark:], dev.log[mark:]):
            k = r["count"]
            if kind == "w":
                pdu = ref.write_req(case["unit"], a + pos, payload(seed, n)[2 * pos:2 * (pos + k)])
            else:
                pdu = ref.read_req(case["unit"], 3 if kind == "r" else 4, a + pos, k)
            eq(raw[2:], ref.tcp_frame(0, pdu)[2:], "%s frame" % kind)
            pos += k
        eq(pos, n, "registers transferred")
        eq(dev.bad_frames, [], "malformed requests")
        for s in w.sockets:
            if not s.closed:
                eq(bytes(s.inbuf), b"", "bytes left unread on the connection")
                eq(bytes(s.outbuf), b"", "incomplete request on the connection")
    d.close()


@enumerated("C11", "every-unit", lambda tier: unit_cases("rtu"), rule="reads and writes with every slave id; non-trivial: fragmented replies")
def c11units(case, rec):
    c11(dict(case, stale=""), rec)


@enumerated("C13", "every-unit", lambda tier: unit_cases("tcp"), rule="reads and writes with every unit id; non-trivial: split replies or one connection")
def c13units(case, rec):
    c13(case, rec)


@part("C13", "destination", lambda tier: st.fixed_dictionaries(
    {"api": st.sampled_from(["modbus", "client", "scripting"]), "host": st.sampled_from(["10.0.0.9", "10.0.0.1", "device.example", "localhost"]),
     "port": st.sampled_from([None, None, 502, 1502, 503, 65535]), "unit": st.sampled_from([0, 1, 126, 255]),
     "kinds": st.lists(st.sampled_from(["r", "w", "reopen"]), min_size=1, max_size=4)}), quick=120,
      rule="devices at several hosts and ports, the same map behind each, made through every class with or without a port; every case")
def c13d(case, rec):
    w = fakes.world()
    port = 502 if case["port"] is None else case["port"]
    devs = {}
    for h in ("10.0.0.9", "10.0.0.1", "device.example", "localhost"):
        for q in (502, 503, 1502, 65535):
            dev = make_device(case["unit"], 40000, 40, 7)
            dev.load(40000, b"SunS\xff\xff\0\0")
            w.hosts[(h, q)] = [dev]
            devs[(h, q)] = dev
    kw = {} if case["port"] is None else {"ipport": case["port"]}
    if case["api"] == "modbus":
        d = sut.modbus.ModbusClientDeviceTCP(case["unit"], case["host"], **kw)
        close = d.close
    else:
        cls = sut.client.ClientDevice if case["api"] == "client" else sut.client.SunSpecClientDevice
        x = no_error(lambda: cls(sut.client.TCP, case["unit"], ipaddr=case["host"], **kw), "construction")
        d, close = (x.device if case["api"] == "scripting" else x), x.close
    mine = devs[(case["host"], port)]
    for i, k in enumerate(case["kinds"]):
        n = len(mine.log)
        what = "operation %d %s" % (i, k)
        if k == "r":
            eq(bytes(no_error(lambda: d.read(40010, 5), what)), mine.get(40010, 5), what)
        elif k == "w":
            no_error(lambda: d.write(40012, payload(i, 3)), what)
            eq(mine.get(40012, 3), payload(i, 3), what + ": registers of the device")
        elif case["api"] == "modbus":
            no_error(d.connect, what)
            no_error(d.disconnect, what)
            continue
        else:
            continue
        eq(len(mine.log), n + 1, what + ": requests at %s:%d" % (case["host"], port))
    close()
    for k, dev in devs.items():
        if dev is not mine and (dev.log or dev.bad_frames):
            fail("requests for %s:%d went to %s:%d", case["host"], port, k[0], k[1])
    rec.nontrivial(True)
    rec.label(case["api"], "default port" if case["port"] is None else "given port")


# --------------------------------------------------------------------------------- C15

FAULT15 = ["exception", "silence", "reset", "close", "truncate", "late", "refused", "ctimeout", "unreachable"]


@st.composite
def conn_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 9))):
        k = draw(st.sampled_from(["connect", "connect-timeout", "disconnect", "close", "r", "r", "w", "r2"]))
        f = draw(st.sampled_from([None, None, None, "close-error"] + FAULT15))
        ops.append([k, f])
    return {"transport": "tcp", "unit": 1, "ops": ops, "max": 5, "pieces": draw(PIECES)}


def wire_fault(name, at=0):
    f = {"at": at, "kind": name}
    if name == "exception":
        f["code"] = 4
    if name == "truncate":
        f.update(n=7, after="timeout")
    return f


CONN_KIND = {"refused": "refused", "ctimeout": "timeout", "unreachable": "unreachable", "gaierror": "gaierror", "unicode": "unicode"}


@part("C15", "connections", lambda tier: conn_case(), quick=900,
      rule="histories of connect/disconnect/close/read/write with refused, unreachable, time-out, reset, closed, truncated, late, "
           "exception and failing-close faults at any operation; non-trivial: a failure followed by an operation, or a reconnect")
def c15(case, rec):
    dev = make_device(1, 0, 60, 1)
    d = open_modbus(case, dev)
    w = fakes.world()
    explicit = None          # True: open, False: none, None: unspecified (after a failed exchange)
    explicit = False
    last_failed = False
    nontriv = False
    for i, (op, fault) in enumerate(case["ops"]):
        what = "step %d %s (fault %s) of %s" % (i, op, fault, case["ops"])
        dev.disarm()
        w.connect_always = w.socket_error = None
        conn_fault = CONN_KIND.get(fault)
        if conn_fault:
            w.connect_always = conn_fault
        elif fault == "close-error":
            w.socket_error = {"op": "close", "n": 1, "exc": "reset"}
        elif fault:
            dev.arm([wire_fault(fault, 1 if op == "r2" else 0)])
        before = w.open_sockets()
        if last_failed:
            nontriv = True
        if op in ("connect", "connect-timeout"):
            nontriv = nontriv or bool(before)
            # the time-out of the device, or the same one named by the caller
            r, err = attempt(MErr, d.connect if op == "connect" else lambda: d.connect(timeout=d.timeout), what)
            if conn_fault:
                if err is None:
                    fail("%s: refused connection not reported", what)
                eq(len(w.open_sockets()), 0, what + ": open connections after a failed connect")
                explicit = False
            else:
                if err is not None:
                    fail("%s failed: %s", what, err)
                eq(len(w.open_sockets()), 1, what + ": open connections")
                if before and w.open_sockets()[0] in before and explicit is not None:
                    pass
                explicit = True
            last_failed = err is not None
            continue
        if op in ("disconnect", "close"):
            no_error(getattr(d, op), what)
            eq(len(w.open_sockets()), 0, what + ": open connections")
            explicit = False
            last_failed = False
            continue
        n = 8 if op == "r2" else 3      # r2 needs two requests
        mark = len(dev.log)
        if op == "w":
            seed = i
            r, err = attempt(MErr, lambda: d.write(4, payload(seed, n)), what)
        else:
            r, err = attempt(MErr, lambda: d.read(2, n), what)
        hit = any(x["fault"] for x in dev.log[mark:])
        if conn_fault and explicit is False:
            hit = True
        if conn_fault and explicit is None and err is not None:
            hit = True
        if hit:
            if err is None:
                fail("%s: fault not reported, returned %r", what, r)
            rec.label("failed-" + str(fault))
        else:
            if err is not None:
                fail("%s failed although device and network work: %s", what, err)
            if op == "w":
                eq(dev.get(4, n), payload(i, n), what + ": registers")
            else:
                eq(r, dev.get(2, n), what + ": data")
        now = w.open_sockets()
        if explicit is True and err is None:
            eq(len(now), 1, what + ": open connections within an explicit connection")
            if now[0] not in before:
                fail("%s: the explicit connection was not used", what)
        elif explicit is True:
            explicit = None
            if len(now) > 1:
                fail("%s: %d connections open", what, len(now))
        elif explicit is None:
            if len(now) > 1:
                fail("%s: %d connections open", what, len(now))
            if len(now) == 0:
                explicit = False
        else:
            eq(len(now), 0, what + ": connections left open by an operation that opened one for itself")
        last_failed = err is not None
    w.connect_always = w.socket_error = None
    dev.disarm()
    r = no_error(lambda: d.read(0, 2), "final read")
    eq(r, dev.get(0, 2), "final read")
    d.close()
    eq(len(w.open_sockets()), 0, "open connections at the end")
    rec.nontrivial(nontriv)


@st.composite
def client_conn_case(draw):
    nmod = draw(st.integers(0, 3))
    return {"unit": 1, "lens": [draw(st.integers(0, 4)) for _ in range(nmod)], "base": draw(st.sampled_from([40000, 0, 50000])),
            "what": draw(st.sampled_from(["construct", "scan", "bare"])),
            "fault": draw(st.sampled_from([None] + FAULT15)), "at": draw(st.integers(0, 8)), "pieces": draw(PIECES)}


@part("C15", "scan", lambda tier: client_conn_case(), quick=400,
      rule="construction and scan of TCP clients with a fault at any request or connection; non-trivial: the fault hits")
def c15s(case, rec):
    w = fakes.world()
    w.pieces = fakes.Pieces(case["pieces"])
    dev = fakes.Device(unit=1)
    img = b"SunS"
    for i, n in enumerate(case["lens"]):
        img += struct.pack(">HH", 64001 + i, n) + b"\0\1" * n
    dev.load(case["base"], img + b"\xff\xff\0\0")
    w.hosts[HOST] = [dev]
    fault = case["fault"]
    if fault in CONN_KIND:
        w.connect_always = CONN_KIND[fault]
    elif fault:
        dev.arm([wire_fault(fault, case["at"])])
    CErr = sut.client.SunSpecClientError
    args = dict(slave_id=1, ipaddr=HOST[0], ipport=HOST[1])
    closer = None
    if case["what"] == "construct":
        r, err = attempt(CErr, lambda: sut.client.SunSpecClientDevice(sut.client.TCP, **args), "construction")
        closer = r
    else:
        cd = sut.client.ClientDevice(sut.client.TCP, **args)
        eq(len(w.sockets), 0, "sockets opened by construction alone")
        r, err = attempt(CErr, cd.scan, "scan")
        closer = cd
    eq(len(w.open_sockets()), 0, "open connections after %s (error %s)" % (case["what"], err))
    if err is None and closer is not None:
        closer.close()
        eq(len(w.open_sockets()), 0, "open connections after close")
    rec.nontrivial(err is not None or any(x["fault"] for x in dev.log))
    rec.label(case["what"], "error" if err else "ok")
    # the network works again
    w.connect_always = None
    dev.disarm()
    cd = sut.client.ClientDevice(sut.client.TCP, **args) if case["what"] == "construct" else closer
    if case["what"] == "bare" or err is not None:
        cd = cd if cd is not None else sut.client.ClientDevice(sut.client.TCP, **args)
        cd2 = sut.client.ClientDevice(sut.client.TCP, **args)
        no_error(cd2.scan, "scan afterwards")
        eq([m.id for m in cd2.models_list], [64001 + i for i in range(len(case["lens"]))], "models afterwards")
        cd2.close()
    cd.close()
    eq(len(w.open_sockets()), 0, "open connections at the end")


# --------------------------------------------------------------------------------- C16

@st.composite
def crowd_case(draw):
    n = draw(st.sampled_from([2, 3, 4, 5, 7, 9, 12, 18, 34, 66, 120]))
    first, step = draw(st.integers(0, 246)), draw(st.sampled_from([1, 2, 5, 11, 37, 246]))
    ids = [1 + (first + i * step) % 247 for i in range(n)]       # 247 = 13 * 19: all distinct
    return {"ids": ids, "ports": draw(st.sampled_from([1, 1, 1, 2, 3, 9, 40])), "order": draw(st.permutations(range(len(ids)))), "kinds": draw(st.lists(st.sampled_from(["modbus", "client"]), min_size=1, max_size=5)),
            "read": draw(st.lists(st.integers(0, 300), min_size=1, max_size=6))}


@part("C16", "crowd", lambda tier: crowd_case(), quick=60,
      rule="2 to 120 devices on one to 40 ports, closed in any order, with reads from the rest in between; non-trivial: five or more")
def c16crowd(case, rec):
    w = fakes.world()
    ids = case["ids"]
    names = [PORT + ("" if n == 0 else str(n)) for n in range(case.get("ports", 1))]
    port = {s: names[i % len(names)] for i, s in enumerate(ids)}
    names = names[:len(ids)]
    devs = {s: make_device(s, 0, 10, s) for s in ids}
    for p in names:
        # each port answers for its own devices only
        w.ports[p] = [devs[s] for s in ids if port[s] == p]
    made = []
    for i, s in enumerate(ids):
        if case["kinds"][i % len(case["kinds"])] == "modbus":
            made.append(sut.modbus.ModbusClientDeviceRTU(s, port[s]))
        else:
            made.append(sut.client.ClientDevice(sut.client.RTU, slave_id=s, name=port[s]))
    eq(len(w.opens), len(names), "times a port was opened for %d devices on %d ports" % (len(ids), len(names)))
    left = list(range(len(ids)))
    for n, i in enumerate(case["order"]):
        k = left[case["read"][n % len(case["read"])] % len(left)]
        eq(no_error(lambda: made[k].read(1, 4), "read of device %d, %d of %d left" % (ids[k], len(left), len(ids))), devs[ids[k]].get(1, 4), "data")
        no_error(made[i].close, "closing device %d" % ids[i])
        left.remove(i)
        eq(sorted(s.port for s in w.open_serials()), sorted({port[ids[j]] for j in left}), "open ports with %d of %d devices left" % (len(left), len(ids)))
    eq(len(w.opens), len(names), "times a port was opened in the end")
    d = sut.modbus.ModbusClientDeviceRTU(ids[0], port[ids[0]], baudrate=19200)
    eq(d.read(1, 4), devs[ids[0]].get(1, 4), "data after opening the port again")
    d.close()
    rec.nontrivial(len(ids) >= 5)
    rec.label("%s devices" % ("2-4" if len(ids) < 5 else "5-9" if len(ids) < 10 else "10+"), "%s ports" % ("1" if len(names) == 1 else "2-4" if len(names) < 5 else "5+"))


@st.composite
def port_case(draw):
    ops = []
    names = draw(st.sampled_from([["/dev/ttyA", "/dev/ttyB"], ["/dev/ttyA", "/dev/ttya"], ["COM1", "COM11"], ["com2", "COM2"], ["/dev/ttyA", "/dev/ttyAB"],
                                  ["/dev/ttyA", "ttyA"], ["/dev/ttyUSB0", "/dev/ttyUSB1"], ["/dev/ttyA", "/dev/ttyA "]]))
    names = names[::draw(st.sampled_from([1, -1]))]
    for _ in range(draw(st.integers(2, 12))):
        k = draw(st.sampled_from(["open", "open", "open", "close", "close", "reclose", "read"]))
        ops.append([k, draw(st.sampled_from(names)), draw(st.sampled_from([1, 1, 2, 2, 3, 0])),
                    draw(st.sampled_from([None, None, None, 9600, 19200])), draw(st.sampled_from([None, None, None, "N", "E"])),
                    draw(st.integers(0, 5)), draw(st.sampled_from([0, 0, 0, 0, 1])),
                    draw(st.sampled_from(["modbus", "client", "scripting"])), draw(st.sampled_from([None, None, "silence", "exception", "garbage"]))])
    return {"names": names, "ops": ops}


@st.composite
def settings_case(draw):
    """Devices opened with settings that fit those of the others on the port or do not."""
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.sampled_from(["open", "open", "open", "open", "close", "read"]))
        ops.append([k, "/dev/ttyA", draw(st.integers(0, 3)), draw(st.sampled_from([None, 9600, 19200])), draw(st.sampled_from([None, "N", "E"])),
                    draw(st.integers(0, 5)), 0, draw(st.sampled_from(["modbus", "client"])), None])
    return {"names": ["/dev/ttyA", "/dev/ttyB"], "ops": ops}


@part("C16", "settings", lambda tier: settings_case(), quick=300,
      rule="histories on one port of devices opened with explicit and default settings, fitting and not, closing and reading; non-trivial: "
           "as above")
def c16settings(case, rec):
    ports(case, rec)


@part("C16", "ports", lambda tier: port_case(), quick=1200,
      rule="histories of opening devices (2 ports, slave ids, settings, failing opens, directly or as ClientDevice), closing, "
           "closing (also with an error from the port's driver), closing again and reading; non-trivial: two devices share a port or a "
           "port is reopened")
def c16(case, rec):
    ports(case, rec)


def ports(case, rec):
    w = fakes.world()
    dev = {}
    for pn in case["names"]:
        w.ports[pn] = [make_device(s, 0, 30, s + (10 if pn == case["names"][1] else 0)) for s in (0, 1, 2, 3)]
        for x in w.ports[pn]:
            dev[(pn, x.unit)] = x
            if x.unit != 3:          # the third is no SunSpec device
                x.load(40000, b"SunS\xff\xff\0\0")
    open_devs = []           # (obj, port, slave, is_client)
    closed = []
    ports = {}               # port -> {"set": (baud, parity), "users": n}
    shared = reopened = False
    everopen = set()

    def expect_ports(what):
        got = sorted((s.port, s.baudrate, s.parity) for s in w.open_serials())
        want = sorted((p, v["set"][0], v["set"][1]) for p, v in ports.items())
        eq(got, want, what + ": open serial ports")
        for s in w.open_serials():
            eq((s.bytesize, float(s.stopbits), bool(s.xonxoff), bool(s.rtscts), bool(s.dsrdtr)), (8, 1.0, False, False, False),
               what + ": data bits, stop bits and handshakes of the port")
            if s.timeout is None or s.write_timeout is None:
                fail("%s: a port without time limits: %r/%r", what, s.timeout, s.write_timeout)

    for i, (k, pn, slave, baud, parity, pick, failing, kind, scan_fault) in enumerate(case["ops"]):
        what = "step %d of %s" % (i, [o[:5] + o[6:7] for o in case["ops"][:i + 1]])
        if k == "open":
            if any(p == pn and s == slave for _, p, s, _ in open_devs):
                continue
            nopen = len(w.opens)
            if failing and pn not in ports:
                w.open_errors[pn] = 1
            E = MErr if kind == "modbus" else sut.client.SunSpecClientError
            scan_fails = False
            if kind == "scripting":
                scan_fails = slave == 3 or scan_fault is not None
                if scan_fault is not None:
                    dev[(pn, slave)].arm([{"at": n, "kind": scan_fault, "code": 4, "hex": "0102"} for n in range(8)])
                make = lambda: sut.client.SunSpecClientDevice(sut.client.RTU, slave_id=slave, name=pn, baudrate=baud, parity=parity)
            elif kind == "client":
                make = lambda: sut.client.ClientDevice(sut.client.RTU, slave_id=slave, name=pn, baudrate=baud, parity=parity)
            else:
                make = lambda: sut.modbus.ModbusClientDeviceRTU(slave, pn, baudrate=baud, parity=parity)
            r, err = attempt(E, make, what)
            w.open_errors.pop(pn, None)
            dev[(pn, slave)].disarm()
            if scan_fails:
                # whatever the reason, the port is left as it was
                if err is None:
                    fail("%s: opened although there is no SunSpec map", what)
                rec.label("failing-scan")
                expect_ports(what)
                continue
            if pn in ports:
                eq(len(w.opens), nopen, what + ": port opened again while open")
                cur = ports[pn]["set"]
                bad = (baud is not None and baud != cur[0]) or (parity is not None and parity != cur[1])
                if bad != (err is not None):
                    fail("%s: open with %r/%r on a port at %r: error %s", what, baud, parity, cur, err)
                if not bad:
                    shared = True
                    ports[pn]["users"] += 1
                else:
                    rec.label("mismatch")
            else:
                if bool(failing) != (err is not None):
                    fail("%s: open: error %s", what, err)
                if not failing:
                    ports[pn] = {"set": (baud or 9600, parity or "N"), "users": 1}
                    reopened = reopened or pn in everopen
                    everopen.add(pn)
                else:
                    rec.label("failing-open")
            if err is None:
                open_devs.append((r, pn, slave, kind))
        elif k == "close" and open_devs:
            r, pn, slave, kind = open_devs.pop(pick % len(open_devs))
            if failing:
                # the port goes away, and its driver says so when it is closed
                w.serial_error = {"op": "close", "n": 1, "exc": "os"}
                x, err = attempt(MErr if kind == "modbus" else sut.client.SunSpecClientError, r.close, what)
                if err is not None and ports[pn]["users"] > 1:
                    fail("%s: closing a device while others use its port: %s", what, err)
                w.serial_error = None
                rec.label("close-error" if err else "close-no-error")
            else:
                no_error(r.close, what)
            closed.append((r, pn, slave, kind))
            ports[pn]["users"] -= 1
            if ports[pn]["users"] == 0:
                del ports[pn]
        elif k == "reclose" and closed:
            r, pn, slave, kind = closed[pick % len(closed)]
            no_error(r.close, what + " (closing again)")
            obj = r.device if kind == "scripting" else r
            for f, how in ((lambda: obj.read(3, 2), "reading"), (lambda: obj.write(3, b"\0\1"), "writing")):
                expect_error(MErr if kind == "modbus" else sut.client.SunSpecClientError, f, "%s (%s a closed device)" % (what, how))
            rec.label("reclose")
        elif k == "read" and open_devs:
            r, pn, slave, kind = open_devs[pick % len(open_devs)]
            n = 1 + pick
            got = no_error(lambda: (r.device if kind == "scripting" else r).read(3, n), what)
            eq(got, dev[(pn, slave)].get(3, n), what + ": data")
        expect_ports(what)
    for r, pn, slave, kind in open_devs:
        got = no_error(lambda: (r.device if kind == "scripting" else r).read(1, 2), "final read of %s %d" % (pn, slave))
        eq(got, dev[(pn, slave)].get(1, 2), "final read")
    for r, pn, slave, _ in open_devs:
        r.close()
    ports.clear()
    expect_ports("after closing all devices")
    rec.nontrivial(shared or reopened)


# --------------------------------------------------------------------------------- C30

@st.composite
def trace_case(draw):
    t = draw(st.sampled_from(["rtu", "tcp"]))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        f = None
        if draw(st.integers(0, 3)) == 0:
            f = rtu_faults(draw, draw(st.integers(0, 1))) if t == "rtu" else tcp_faults(draw, draw(st.integers(0, 1)))
        ops.append([draw(st.sampled_from(["r", "ri", "w"])), draw(st.integers(0, 20)), draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 300))), draw(st.integers(0, 9)), f])
    return {"transport": t, "unit": draw(UNITS if t == "rtu" else TCP_UNITS), "lo": draw(st.sampled_from([0, 40000])), "max": draw(st.sampled_from([125, 5])),
            "ops": ops, "pieces": draw(PIECES), "explicit": draw(st.booleans())}


def traced_run(case, trace):
    fakes.reset_world()
    sut.reset()
    dev = make_device(case["unit"], case["lo"], 330, 3, split_input=True)
    d = open_modbus(case, dev, trace=trace)
    if case["explicit"] and case["transport"] == "tcp":
        d.connect()
    out = []
    for kind, off, n, seed, f in case["ops"]:
        if f:
            dev.arm([f])
        else:
            dev.disarm()
        run, want = do_op(d, dev, [kind, off, n, seed], case["lo"])
        r, err = attempt(MErr, run, "%s (trace %s)" % ([kind, off, n, f], trace is not None))
        out.append((r, type(err).__name__ if err else None, str(err) if err else None))
    d.close()
    return out, dev


@part("C30", "differential", lambda tier: trace_case(), quick=600,
      rule="operation sequences with good, exceptional and failing replies, run with and without trace function; results, errors "
           "and wire bytes compared, trace lines matched against the wire; non-trivial: some request answered")
def c30(case, rec):
    plain, dev0 = traced_run(case, None)
    lines = []
    traced, dev1 = traced_run(case, lambda s: lines.append(s))
    eq(traced, plain, "results with tracing")
    eq(dev1.raw_log, dev0.raw_log, "requests with tracing")
    eq(dev1.regs, dev0.regs, "device registers with tracing")
    for l in lines:
        if not isinstance(l, str):
            fail("trace function called with a %s", type(l).__name__)
    pos = 0

    def find(data, what):
        nonlocal pos
        h = data.hex().upper()
        while pos < len(lines):
            if h in re.findall("[0-9A-F]+", lines[pos].upper()):
                pos += 1
                return
            pos += 1
        fail("%s %s not traced (in order); trace: %r", what, h, lines)

    n = 0
    for r in dev1.log:
        find(r["raw"], "request")
        if r["fault"] is None or r["fault"]["kind"] == "exception":
            find(r["reply"], "reply")
            n += 1
        rec.label("fault" if r["fault"] else "good")
    rec.nontrivial(n > 0)
    rec.label(case["transport"])


@st.composite
def trace_client_case(draw):
    import bench
    return draw(bench.device_case(transports=["rtu", "tcp"], max_models=2, max_defs=1, max_rep=1,
                                  fixed_kw=dict(max_points=4), rep_kw=dict(max_points=2)))


@part("C30", "client", lambda tier: trace_client_case(), quick=100,
      rule="scan and read of whole devices with trace off, on (True) and with a trace function; all non-trivial")
def c30c(case, rec):
    import bench
    outs = []
    collected = []
    for tr in (False, True, lambda s: collected.append(s)):
        sut.reset()
        with bench.bench(case) as b:
            said = io.StringIO()
            with contextlib.redirect_stdout(said):
                cd = b.open(trace=tr)
                cd.scan()
                cd.read_points()
            outs.append(([(m.id, m.addr, m.len, [[(p.point_type.id, p.value_base) for p in blk.points_list] for blk in m.blocks])
                          for m in cd.models_list], list(b.dev.raw_log)))
            cd.close()
            if tr is True:
                for r in b.dev.raw_log:
                    if bytes(r).hex().upper() not in said.getvalue().upper():
                        fail("a request %s is not shown by trace=True: %r", bytes(r).hex(), said.getvalue()[:300])
    eq(outs[1], outs[0], "scan and read with trace=True")
    eq(outs[2], outs[0], "scan and read with a trace function")
    if len(collected) < len(outs[0][1]):
        fail("%d trace lines for %d requests", len(collected), len(outs[0][1]))
    rec.label(case["transport"])
