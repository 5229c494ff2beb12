"""C17-C19: Modbus register maps (sunspec/core/modbus/mbmap.py)."""
import os, random, struct
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from harness import part, enumerated, fail, eq, expect_error, no_error, scratch
import ref
import sut

MM = sut.mbmap.ModbusMap
ERR = sut.mbmap.ModbusMapError
FUNC = {"holding": 3, "input": 4}


# ------------------------------------------------------------------------------------- model

class Ref(object):
    """Reference register store: offset -> two bytes, and the blocks in order."""
    def __init__(self, base):
        self.base = base
        self.regs = {}
        self.blocks = []           # [offset, count, access]

    def next(self):
        return self.blocks[-1][0] + self.blocks[-1][1] if self.blocks else 0

    def place(self, offset, data, access, merge=True):
        n = len(data) // 2
        if merge and self.blocks and offset == self.next():
            self.blocks[-1][1] += n
        else:
            self.blocks.append([offset, n, access])
        for i in range(n):
            self.regs[offset + i] = data[2 * i:2 * i + 2]

    def holds(self, addr, count):
        return all(a - self.base in self.regs for a in range(addr, addr + count))

    def read(self, addr, count):
        return b"".join(self.regs[a - self.base] for a in range(addr, addr + count))

    def write(self, addr, data):
        for i in range(len(data) // 2):
            self.regs[addr - self.base + i] = data[2 * i:2 * i + 2]


def compare(m, r, what):
    """The map holds exactly the registers of the reference."""
    offs = sorted(r.regs)
    runs = []
    for o in offs:
        if runs and runs[-1][0] + runs[-1][1] == o:
            runs[-1][1] += 1
        else:
            runs.append([o, 1])
    for o, n in runs:
        a = r.base + o
        eq(bytes(no_error(m.read, "%s: read of held registers %d+%d" % (what, a, n), a, n)), r.read(a, n),
           "%s: registers %d+%d" % (what, a, n))
        if o - 1 not in r.regs:
            expect_error(ERR, m.read, "%s: read below a block" % what, a - 1, 2)
        for x in (a - 65536, a + 65536, a - 32768, a - r.base):
            if x >= 0 and not r.holds(x, n):
                expect_error(ERR, m.read, "%s: read of an address far from it" % what, x, n)
        if o + n not in r.regs:
            expect_error(ERR, m.read, "%s: read beyond a block" % what, a + n - 1, 2)


def compare_blocks(m, r, what):
    eq([(b.offset, b.count, b.access) for b in m.regs], [tuple(b) for b in r.blocks], "%s: register blocks" % what)
    for b in m.regs:
        eq(len(b.data), 2 * b.count, "%s: data bytes of block at %d" % (what, b.offset))


# --------------------------------------------------------------------------------------- C17

BASES = st.one_of(st.sampled_from([40000, 0, 50000, 1, 65000]), st.integers(0, 65000))


@st.composite
def store_cases(draw, tier):
    base = draw(BASES)
    nops = draw(st.integers(4, 12 if tier == "quick" else 20))
    ops, cur = [], 0
    spans = []
    blob = draw(st.binary(min_size=8, max_size=40))
    for k in range(nops):
        kind = draw(st.sampled_from(["add", "write", "write", "read", "read", "add", "join", "bad", "block"]))
        if not spans:
            kind = draw(st.sampled_from(["add", "add", "join", "bad"]))
        if kind in ("add", "join"):
            gap = draw(st.sampled_from([0, 0, 0, 0, 1, 5, 1000, 30000]))
            n = draw(st.one_of(st.integers(1, 12), st.sampled_from([124, 125, 126, 300])))
            o = cur + gap
            ops.append([kind, o, n, draw(st.sampled_from(["r", "rw"])), draw(st.sampled_from(["offset", "addr"]))])
            spans.append((o, n))
            cur = o + n
        elif kind == "bad":
            o = draw(st.integers(-3, max(cur - 1, -1)))
            ops.append(["bad", o, draw(st.integers(1, 5)), "rw", draw(st.sampled_from(["offset", "addr"]))])
        elif kind == "block":
            # a register block used on its own
            o, n = spans[draw(st.integers(0, len(spans) - 1))]
            start = o + draw(st.one_of(st.integers(-2, min(n + 1, 40)), st.just(0)))
            cnt = draw(st.one_of(st.integers(1, 6), st.just(n), st.just(max(1, o + n - start))))
            ops.append(["block", o, start, cnt, draw(st.sampled_from(["read", "write"]))])
        else:
            o, n = spans[draw(st.integers(0, len(spans) - 1))]
            start = o + draw(st.integers(-2, min(n + 1, 40)))
            cnt = draw(st.one_of(st.integers(1, 30), st.just(max(1, o + n - start)), st.just(max(1, cur - start))))
            if kind == "read":
                ops.append(["read", start, cnt, draw(st.sampled_from([None, None, 3, 4]))])
            else:
                nb = 2 * cnt + draw(st.sampled_from([0, 0, 0, 0, 0, 1]))
                seed = draw(st.integers(1, 255))
                data = bytes((b * seed + i) & 255 for i, b in zip(range(nb), (blob * (nb // len(blob) + 1))))
                ops.append(["write", start, data.hex()])
    return {"base": base, "func": draw(st.sampled_from(["holding", "input"])), "ops": ops}


@part("C17", "store", lambda tier: store_cases(tier), quick=1500,
      rule="at least one write of held registers and one read or write refused or spanning blocks")
def store(case, rec):
    base = case["base"]
    m = MM(1, func=case["func"], base_addr=base)
    r = Ref(base)
    wrote = special = False
    for k, op in enumerate(case["ops"]):
        what = "step %d %s" % (k, op[:3])
        if op[0] in ("add", "bad"):
            kw = {"offset": op[1]} if op[4] == "offset" else {"addr": base + op[1]}
            if op[0] == "bad":
                expect_error(ERR, m.regs_add, what + ": block overlapping or going backwards", count=op[2],
                             access=op[3], **kw)
                rec.label("add refused")
            else:
                no_error(m.regs_add, what, count=op[2], access=op[3], **kw)
                rec.label("block adjoins" if r.blocks and r.next() == op[1] else "block apart")
                r.place(op[1], b"\0" * (2 * op[2]), op[3])
        elif op[0] == "join":
            # a register block supplied by the user
            data = bytes((i * 7 + op[1]) & 255 for i in range(2 * op[2]))
            m.regs.append(sut.mbmap.ModbusMapRegs(op[1], op[2], data, op[3]))
            r.place(op[1], data, op[3], merge=False)
            rec.label("user block")
        elif op[0] == "block":
            start, n = op[2], op[3]
            for i, b in enumerate(r.blocks):
                if b[0] <= op[1] < b[0] + b[1]:
                    break
            blk = m.regs[i]
            inside = b[0] <= start and start + n <= b[0] + b[1]
            if op[4] == "read":
                if inside:
                    eq(bytes(no_error(blk.read, what, start, n)), r.read(base + start, n), what)
                elif not b[0] <= start < b[0] + b[1]:
                    expect_error(ERR, blk.read, what + ": starts outside the block", start, n)
                    special = True
                else:
                    # never anything but registers it holds
                    try:
                        got = bytes(blk.read(start, n))
                    except ERR:
                        got = None
                    if got is not None:
                        eq(got, r.read(base + start, b[0] + b[1] - start), what + ": runs past the end of the block")
                    special = True
            else:
                data = bytes((k * 31 + j * 5 + 1) & 255 for j in range(2 * n))
                if inside:
                    no_error(blk.write, what, start, data)
                    r.write(base + start, data)
                else:
                    expect_error(ERR, blk.write, what + ": not all in the block", start, data)
                    special = True
            rec.label("block on its own: " + ("inside" if inside else "refused"))
        elif op[0] == "read":
            a, n, f = base + op[1], op[2], op[3]
            ok = r.holds(a, n) and (f is None or f == FUNC[case["func"]])
            fn = (lambda: m.read(a, n)) if f is None else (lambda: m.read(a, n, op=f))
            if ok:
                eq(bytes(no_error(fn, what)), r.read(a, n), what)
                if multi(r, op[1], n):
                    special = True
                    rec.label("read spans blocks")
            else:
                expect_error(ERR, fn, what + ": not held or wrong function")
                special = True
                rec.label("read refused")
        else:
            a, data = base + op[1], bytes.fromhex(op[2])
            ok = len(data) % 2 == 0 and r.holds(a, len(data) // 2)
            if ok:
                no_error(m.write, what, a, data)
                r.write(a, data)
                wrote = True
                if multi(r, op[1], len(data) // 2):
                    special = True
                    rec.label("write spans blocks")
            else:
                expect_error(ERR, m.write, what + ": not held or odd length", a, data)
                special = True
                rec.label("write refused")
        compare(m, r, "after " + what)
        for b in m.regs:
            eq(len(b.data), 2 * b.count, "data bytes of block at %d after %s" % (b.offset, what))
    compare_blocks(m, r, "at the end")
    rec.nontrivial(wrote and special)


def multi(r, off, n):
    return sum(1 for b in r.blocks if b[0] < off + n and off < b[0] + b[1]) > 1


@part("C17", "many", lambda tier: st.fixed_dictionaries(
    {"base": BASES, "blocks": st.integers(8, 60 if tier == "quick" else 200), "seed": st.integers(0, 1 << 30),
     "gaps": st.sampled_from([0, 0, 0.05, 0.5, 1]), "long": st.booleans(), "func": st.sampled_from(["holding", "input"])}),
      quick=60, rule="maps of 8 to 200 register blocks, adjoining or apart, read and written across many of them; all non-trivial")
def store_many(case, rec):
    rnd = random.Random(case["seed"])
    base = case["base"]
    m = MM(1, func=case["func"], base_addr=base)
    r = Ref(base)
    for i in range(case["blocks"]):
        o = r.next() + (rnd.choice([1, 2, 50]) if rnd.random() < case["gaps"] else 0)
        n = rnd.choice([1, 2, 3, 10, 125, 300] if case["long"] else [1, 1, 2, 3, 4])
        acc = rnd.choice(["r", "rw"])
        data = bytes(rnd.getrandbits(8) for _ in range(2 * n))
        if o == r.next() or rnd.random() < 0.5:
            m.regs.append(sut.mbmap.ModbusMapRegs(o, n, data, acc))
            r.place(o, data, acc, merge=False)
        else:
            no_error(m.regs_add, "block %d" % i, offset=o, count=n, access=acc)
            r.place(o, b"\0" * (2 * n), acc)
    end = r.next()
    spans = [(b[0], b[1]) for b in r.blocks]
    for k in range(25):
        i = rnd.randrange(len(spans))
        j = min(len(spans) - 1, i + rnd.choice([0, 1, 2, 5, 10, 30, 100]))
        a = spans[i][0] + rnd.choice([0, 0, spans[i][1] - 1])
        n = max(1, spans[j][0] + spans[j][1] - a + rnd.choice([0, 0, -1, 1]))
        what = "step %d on %d+%d of a map of %d blocks, %d registers" % (k, a, n, len(spans), end)
        held = r.holds(base + a, n)
        rec.label("held" if held else "refused", "across %s blocks" % ("many" if j - i > 8 else "few"))
        if rnd.random() < 0.5:
            if held:
                eq(bytes(no_error(m.read, what, base + a, n)), r.read(base + a, n), what + ": read")
            else:
                expect_error(ERR, m.read, what + ": read", base + a, n)
        else:
            data = bytes(rnd.getrandbits(8) for _ in range(2 * n))
            if held:
                no_error(m.write, what + ": write", base + a, data)
                r.write(base + a, data)
            else:
                expect_error(ERR, m.write, what + ": write", base + a, data)
    compare(m, r, "at the end")
    compare_blocks(m, r, "at the end")


def layouts(tier):
    """Every map of up to three short blocks."""
    lens, gaps = (1, 2, 3), (0, 1, 2)
    for base in (0, 40000):
        for first in gaps:
            for a in lens:
                yield {"base": base, "blocks": [[first, a]]}
                for g in gaps:
                    for b in lens:
                        yield {"base": base, "blocks": [[first, a], [g, b]]}
                        if base:
                            for h in gaps:
                                for c in lens:
                                    yield {"base": base, "blocks": [[first, a], [g, b], [h, c]]}


@enumerated("C17", "every-request", layouts, rule="every read and write around every map of up to three blocks of 1 to 3 registers, apart or adjoining; all non-trivial")
def every_request(case, rec):
    base = case["base"]
    m = MM(1, base_addr=base)
    r = Ref(base)
    x = 0
    for g, n in case["blocks"]:
        o = r.next() + g
        data = bytes((x + 3 * i + 1) & 255 for i in range(2 * n))
        x += 2 * n * 3
        m.regs.append(sut.mbmap.ModbusMapRegs(o, n, data, "rw"))
        r.place(o, data, "rw", merge=False)
    k = 0
    for a in range(-2 if base else 0, r.next() + 2):
        for n in range(1, r.next() + 3 - a):
            what = "%d+%d of the blocks %s" % (a, n, case["blocks"])
            k += 1
            data = bytes((k * 31 + j * 5 + 1) & 255 for j in range(2 * n))
            if r.holds(base + a, n):
                eq(bytes(no_error(m.read, "read of " + what, base + a, n)), r.read(base + a, n), "read of " + what)
                no_error(m.write, "write of " + what, base + a, data)
                r.write(base + a, data)
                eq(bytes(no_error(m.read, "read of " + what, base + a, n)), data, "read after the write of " + what)
            else:
                expect_error(ERR, m.read, "read of " + what, base + a, n)
                expect_error(ERR, m.write, "write of " + what, base + a, data)
            compare(m, r, "after the write of " + what)
    rec.nontrivial(True)
    rec.label("%d blocks" % len(case["blocks"]))


# --------------------------------------------------------------------------------- documents

NUM = {"s16": "h", "u16": "H", "s32": "i", "u32": "I", "s64": "q", "u64": "Q"}
TEXT = "".join(chr(c) for c in range(33, 127)) + "\u00e9\u00ff\u00a1"
SAFE = [c for c in TEXT]


@st.composite
def number(draw, t):
    bits = 8 * struct.calcsize(">" + NUM[t])
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if t[0] == "s" else (0, (1 << bits) - 1)
    v = draw(st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, 0, 1, hi - 1, lo + 1, hi // 2 + 1]),
                       st.integers(max(lo, -1000), 1000)))
    form = draw(st.sampled_from(["dec", "dec", "hex", "HEX", "ws"]))
    text = {"dec": "%d", "hex": "0x%x", "HEX": "0X%X", "ws": " %d\n"}[form] % abs(v)
    if v < 0:
        text = text.replace("%d" % -v, "-%d" % -v) if form in ("dec", "ws") else "-" + text
    return text, struct.pack(">" + NUM[t], v).hex()


@st.composite
def item(draw):
    """-> {"type" (absent: default), "text", "data" (hex it must hold), "len" or None}"""
    t = draw(st.sampled_from(["s16", "u16", "s32", "u32", "s64", "u64", "f32", "f64", "string", "string", "hexstr",
                              "hexstr", None]))
    d = {"type": t, "len": None}
    if t in NUM:
        if draw(st.integers(0, 9)) == 0:
            text, data = draw(st.sampled_from(["", None])), "00" * struct.calcsize(">" + NUM[t])
        else:
            text, data = draw(number(t))
        if draw(st.integers(0, 3)) == 0:
            d["len"] = len(data) // 4
    elif t in ("f32", "f64"):
        v = draw(st.one_of(st.floats(allow_nan=False, allow_infinity=False, width=32 if t == "f32" else 64),
                           st.sampled_from([0.0, -0.0, 1.5, -2.25, 1e30, 1e-30, 32.0])))
        text, data = repr(v), struct.pack(">f" if t == "f32" else ">d", v).hex()
        if draw(st.integers(0, 3)) == 0:
            d["len"] = len(data) // 4
    elif t == "string":
        s = draw(st.text(st.sampled_from(SAFE), min_size=0, max_size=20))
        if s and draw(st.integers(0, 4)) == 0:
            s = s[:1] + " " + s[1:]
        if s and draw(st.integers(0, 6)) == 0:
            s = draw(st.sampled_from([" %s", "%s ", " %s  ", "\n%s", "%s\n", "%s\t"])) % s
        if draw(st.integers(0, 9)) == 0:
            s = s * draw(st.sampled_from([12, 13, 30, 70]))
        need = (len(s) + 1) // 2
        mode = draw(st.sampled_from(["default", "exact", "more", "less"]))
        if not s or mode == "more":
            n = max(need, 1) + draw(st.integers(0, 5))
        elif mode == "less":
            n = max(1, need - 1)
        else:
            n = need
        if mode != "default" or not s:
            d["len"] = n
        b = s.encode("latin-1")[:2 * n]
        text, data = s, (b + b"\0" * (2 * n - len(b))).hex()
    else:
        b = draw(st.binary(min_size=0, max_size=24))
        b = b[:len(b) // 2 * 2]
        if draw(st.integers(0, 9)) == 0:
            b = b * draw(st.sampled_from([11, 12, 50, 150]))
        n = len(b) // 2
        text = b.hex()
        sp = draw(st.integers(0, 6))
        if sp >= 4:
            # laid out over several lines
            ws = ["\n", "\n    ", "\t", "\n\n\n", " \n"][draw(st.integers(0, 4))]
            w = draw(st.sampled_from([2, 4, 8, 16]))
            text = draw(st.sampled_from(["", ws])) + ws.join(text[i:i + w] for i in range(0, len(text), w)) + draw(st.sampled_from(["", ws]))
        elif sp == 1:
            text = " ".join(text[i:i + 2] for i in range(0, len(text), 2))
        elif sp == 2:
            text = " ".join(text[i:i + 4] for i in range(0, len(text), 4)).upper()
        elif sp == 3 and text:
            text = " " + text + " "
        mode = draw(st.sampled_from(["default", "exact", "more"]))
        if mode == "more" or not n:
            n = max(n, 1) + draw(st.integers(0, 4))
        if mode != "default" or not b:
            d["len"] = n
        data = (b + b"\0" * (2 * n - len(b))).hex()
    d["text"], d["data"] = text, data
    return d


HEAD = ["", "Acme Inc", "12:34", "m-1", "2014-01-02T03:04:05Z", "a&b<c>\"", "\u00fcber"]


@st.composite
def document(draw, max_items=8, min_items=0):
    items = draw(st.lists(item(), min_size=min_items, max_size=max_items))
    off = 0
    for it in items:
        gap = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 10, 500]))
        it["gap"] = gap
        it["explicit"] = bool(gap) or draw(st.booleans())
        it["offset"] = off + gap
        off = it["offset"] + len(it["data"]) // 4
        it["access"] = draw(st.sampled_from([None, None, "r", "rw"]))
    head = {}
    for k in ("ns", "lid", "mapid", "time"):
        if draw(st.booleans()):
            head[k] = draw(st.sampled_from(HEAD))
    return {"addr": draw(st.one_of(st.none(), BASES)), "func": draw(st.sampled_from([None, "holding", "input"])),
            "head": head, "items": items}


@st.composite
def large_document(draw):
    """Documents of many register elements: a few, over and over with other gaps."""
    doc = draw(document(max_items=6, min_items=1))
    rnd = random.Random(draw(st.integers(0, 1 << 30)))
    pool, items, off = doc["items"], [], 0
    gaps = draw(st.sampled_from([0, 0.1, 1]))
    for _ in range(draw(st.sampled_from([12, 40, 130, 260]))):
        it = dict(rnd.choice(pool))
        it["gap"] = rnd.choice([1, 3]) if rnd.random() < gaps else 0
        it["explicit"] = bool(it["gap"]) or rnd.random() < 0.3
        it["offset"] = off + it["gap"]
        off = it["offset"] + len(it["data"]) // 4
        if off > 20000:
            break
        items.append(it)
    return dict(doc, items=items)


def doc_element(doc):
    root = ET.Element("mbmap")
    if doc["addr"] is not None:
        root.set("addr", str(doc["addr"]))
    if doc["func"] is not None:
        root.set("func", doc["func"])
    for k, v in doc["head"].items():
        root.set(k, v)
    for it in doc["items"]:
        e = ET.SubElement(root, "regs")
        if it["explicit"]:
            e.set("offset", str(it["offset"]))
        for k in ("len", "type", "access"):
            if it[k] is not None:
                e.set(k, str(it[k]))
        if it["text"] is not None:
            e.text = it["text"]
    return root


def doc_ref(doc):
    r = Ref(40000 if doc["addr"] is None else doc["addr"])
    for it in doc["items"]:
        r.place(it["offset"], bytes.fromhex(it["data"]), it["access"] or "r")
    return r


def load(root, how, d, enc="ascii"):
    """Loads a document (an element, or bytes) through one of the ways there are."""
    m = MM(7)
    if how == "element":
        m.from_xml(element=root)
        return m
    data = root if isinstance(root, bytes) else ref.xml_doc(root, enc)
    with open(os.path.join(d, "map.xml"), "wb") as f:
        f.write(data)
    if how == "file":
        m.from_xml(os.path.join(d, "map.xml"))
    else:
        pl = sut.util.PathList()
        pl.add(os.path.join(d, "nowhere"))
        pl.add(d)
        m.from_xml("map.xml", pathlist=pl)
    return m


HOW = st.sampled_from(["element", "element", "file", "pathlist"])


@part("C18", "document", lambda tier: st.fixed_dictionaries({"doc": document(), "how": HOW, "enc": st.sampled_from(ref.ENCODINGS)}), quick=1500,
      rule="at least two register elements")
def load_document(case, rec):
    doc = case["doc"]
    with scratch() as d:
        m = no_error(load, "loading a well-formed document", doc_element(doc), case["how"], d, case.get("enc", "ascii"))
    r = doc_ref(doc)
    eq(m.base_addr, r.base, "base address")
    eq(m.func, FUNC[doc["func"] or "holding"], "function")
    for k in ("ns", "lid", "mapid", "time"):
        eq(getattr(m, k), doc["head"].get(k), k)
    compare_blocks(m, r, "loaded map")
    compare(m, r, "loaded map")
    for it in doc["items"]:
        n = len(it["data"]) // 4
        eq(bytes(no_error(m.read, "element at %d" % it["offset"], r.base + it["offset"], n)).hex(), it["data"],
           "%s element %r at offset %d" % (it["type"], it["text"], it["offset"]))
        rec.label("type %s" % it["type"], "length %s" % ("given" if it["len"] else "default"))
    rec.label(case["how"])
    rec.nontrivial(len(doc["items"]) > 1)


@part("C18", "large", lambda tier: st.fixed_dictionaries({"doc": large_document(), "how": HOW, "enc": st.sampled_from(ref.ENCODINGS)}), quick=60,
      rule="documents of 12 to 260 register elements; non-trivial: at least ten")
def load_large(case, rec):
    load_document(case, rec)
    rec.nontrivial(len(case["doc"]["items"]) > 9)


def respell(doc, how):
    """Another document for the same registers."""
    items = []
    for i, it in enumerate(doc["items"]):
        data = it["data"]
        if how == "hex":
            items.append(dict(it, type=None, len=None, text=data, explicit=True))
        elif how == "words":
            for k in range(0, len(data), 4):
                items.append(dict(it, type="u16", len=None, text=str(int(data[k:k + 4], 16)),
                                  offset=it["offset"] + k // 4, explicit=k == 0, data=data[k:k + 4]))
        elif how == "signed" and len(data) % 16 == 0:
            for k in range(0, len(data), 16):
                v = struct.unpack(">q", bytes.fromhex(data[k:k + 16]))[0]
                items.append(dict(it, type="s64", len=None, text=str(v), offset=it["offset"] + k // 4,
                                  explicit=True, data=data[k:k + 16]))
        else:
            items.append(dict(it, explicit=True))
    return dict(doc, items=items)


@part("C18", "spellings", lambda tier: st.fixed_dictionaries(
    {"doc": document(min_items=1), "to": st.sampled_from(["hex", "words", "signed"])}), quick=300,
      rule="at least two register elements")
def spellings(case, rec):
    doc = case["doc"]
    a, b = MM(1), MM(1)
    no_error(a.from_xml, "loading a document", element=doc_element(doc))
    no_error(b.from_xml, "loading its other spelling", element=doc_element(respell(doc, case["to"])))
    eq(a.not_equal(b), False, "comparison of two spellings of the same map (%s)" % case["to"])
    compare(b, doc_ref(doc), "other spelling")
    rec.nontrivial(len(doc["items"]) > 1)


BROKEN = ["overlap", "backward", "range", "junk number", "junk float", "type", "func", "hex odd", "hex long", "hex junk",
          "offset text", "len text", "addr text", "negative offset", "non latin", "xml", "missing file", "f32 range"]


def broken(doc, kind, k, how):
    """-> (document with one thing wrong, or raw bytes; whether a file is needed)"""
    items = [dict(i) for i in doc["items"]]
    doc = dict(doc, items=items)
    k = k % len(items)
    it = items[k]

    def put(**kw):
        it.update({"len": None, "explicit": True})
        it.update(kw)
        del items[k + 1:]          # what follows the bad element does not matter
    if kind in ("overlap", "backward"):
        n = it["offset"] + len(it["data"]) // 4
        bad = dict(it, offset=n - 1 if kind == "overlap" else max(0, it["offset"] - 1), explicit=True)
        items[k + 1:] = [bad]
    elif kind == "range":
        t = ["s16", "u16", "s32", "u32", "s64", "u64"][len(it["data"]) // 4 % 6]
        bits = 8 * struct.calcsize(">" + NUM[t])
        put(type=t, text=str(1 << (bits - 1) if t[0] == "s" else (1 << bits) if k % 2 else -1))
    elif kind == "junk number":
        put(type=["s16", "u32", "u64"][k % 3], text=["abc", "1.5", "1 2", "0y3", "--1"][len(it["data"]) // 4 % 5])
    elif kind == "junk float":
        put(type=["f32", "f64"][k % 2], text=["abc", "1,5", "0x10"][len(it["data"]) // 4 % 3])
    elif kind == "f32 range":
        put(type="f32", text="1e39")
    elif kind == "type":
        put(type=["u8", "S16", "", "float"][len(it["data"]) // 4 % 4])
    elif kind == "func":
        doc["func"] = ["coil", "", "Holding", "3"][k % 4]
    elif kind == "hex odd":
        put(type="hexstr", text=["1", "12", "123", "12345", "12 34 5"][len(it["data"]) // 4 % 5])
    elif kind == "hex long":
        put(type=["hexstr", None][k % 2], text="1234" * (2 + k % 3), len=1 + k % 2 if k % 3 else 1)
    elif kind == "hex junk":
        put(type="hexstr", text=["12g4", "wxyz", "12.4"][len(it["data"]) // 4 % 3])
    elif kind == "offset text":
        put(offset=["abc", "1.5", ""][k % 3])
    elif kind == "len text":
        put(type="string", text="ab", len=["abc", "1.5", ""][k % 3])
    elif kind == "addr text":
        doc["addr"] = ["abc", "4e4", ""][k % 3]
    elif kind == "negative offset":
        del items[1:]
        items[0].update(explicit=True, offset=-1 - k)
    elif kind == "non latin":
        put(type="string", text="a\u20acb")
    return doc


@part("C18", "refused", lambda tier: st.fixed_dictionaries(
    {"doc": document(min_items=1, max_items=4), "kind": st.sampled_from(BROKEN), "k": st.integers(0, 11), "how": HOW}),
      quick=900, rule="every case")
def refused(case, rec):
    kind = case["kind"]
    rec.label(kind)
    with scratch() as d:
        if kind == "missing file":
            if case["how"] == "pathlist":
                pl = sut.util.PathList([d])
                expect_error(ERR, MM(1).from_xml, kind, "nothere.xml", pathlist=pl)
            else:
                expect_error(ERR, MM(1).from_xml, kind, os.path.join(d, "nothere.xml"))
            return
        root = doc_element(broken(case["doc"], kind, case["k"], case["how"]))
        how = case["how"]
        if kind == "xml":
            root = ET.tostring(root)
            cut = 1 + case["k"] * (len(root) - 2) // 12
            root = root[:cut] if case["k"] % 2 else root[:cut] + b"<" + root[cut:]
            how = "file" if how == "element" else how
            try:
                ET.fromstring(root)
                rec.nontrivial(False)
                return
            except ET.ParseError:
                pass
        expect_error(ERR, load, "document with a bad part (%s)" % kind, root, how, d)


@st.composite
def hex_cases(draw, tier):
    data = draw(st.binary(min_size=2, max_size=120))
    data = data[:len(data) // 2 * 2]
    lines, i = [], 0
    while i < len(data):
        kind = draw(st.integers(0, 5))
        if kind == 0:
            lines.append(draw(st.sampled_from(["# 12 34", "#", "", "   "])))
            continue
        n = draw(st.integers(1, 20))
        fmt = draw(st.sampled_from(["%02x", "%02X", "%02x", "0x%02x", "%x"]))
        sep = draw(st.sampled_from([" ", " ", "  ", "\t"]))
        lines.append(sep.join(fmt % b for b in data[i:i + n]) + draw(st.sampled_from(["", "", " "])))
        i += n
    return {"data": data.hex(), "lines": lines, "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])),
            "last": draw(st.booleans()), "base": draw(BASES), "func": draw(st.sampled_from(["holding", "input"])),
            "times": draw(st.sampled_from([1, 1, 1, 1, 1, 5, 30])),
            "bad": draw(st.sampled_from([None, None, None, None, "100", "xy", "-1", "odd", ";", "; 12", "//", "1.5", "0x", "12,"]))}


@part("C18", "hexfile", lambda tier: hex_cases(tier), quick=500, rule="at least two lines")
def hexfile(case, rec):
    times = case.get("times", 1)
    lines = list(case["lines"]) * times
    bad = case["bad"]
    if bad == "odd":
        lines.append("55")
    elif bad:
        lines.append(bad + " 00")
    with scratch() as d:
        p = os.path.join(d, "map.hex")
        with open(p, "w", newline="") as f:
            f.write(case["eol"].join(lines) + (case["eol"] if case["last"] else ""))
        m = MM(1, func=case["func"], base_addr=case["base"])
        rec.label("bad %s" % bad)
        if bad:
            expect_error(ERR, m.from_hex, "hex file with %s" % bad, p)
            expect_error(ERR, m.from_hex, "missing hex file", os.path.join(d, "nothere.hex"))
            return
        no_error(m.from_hex, "loading a hex file", p)
    r = Ref(case["base"])
    r.place(0, bytes.fromhex(case["data"]) * times, "rw")
    compare(m, r, "map from hex file")
    compare_blocks(m, r, "map from hex file")
    # the map is usable as any other
    w = bytes.fromhex(case["data"])[:2][::-1]
    no_error(m.write, "write", r.base, w)
    r.write(r.base, w)
    compare(m, r, "map from hex file after a write")
    rec.nontrivial(len(lines) > 1)


# --------------------------------------------------------------------------------------- C19

@st.composite
def built(draw, min_items=0):
    """A recipe for a map: a document and then added and written registers."""
    doc = draw(document(max_items=5, min_items=min_items))
    end = max([i["offset"] + len(i["data"]) // 4 for i in doc["items"]] or [0])
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        if draw(st.booleans()) or not end:
            gap = draw(st.sampled_from([0, 0, 1, 7]))
            n = draw(st.integers(1, 10))
            ops.append(["add", end + gap, n, draw(st.sampled_from(["r", "rw"]))])
            end += gap + n
        else:
            ops.append(["write", draw(st.integers(0, end - 1)), draw(st.binary(min_size=2, max_size=2)).hex()])
    return {"doc": doc, "ops": ops, "ctor": draw(st.integers(0, 3)) == 0}


def build(recipe):
    doc = recipe["doc"]
    if recipe.get("ctor"):
        # the same map, made of its parts
        kw = dict(doc["head"])
        if doc["func"] is not None:
            kw["func"] = doc["func"]
        if doc["addr"] is not None:
            kw["base_addr"] = doc["addr"]
        m = MM(3, **kw)
        for it in doc["items"]:
            n = len(it["data"]) // 4
            m.regs_add(offset=it["offset"], count=n, access=it["access"] or "r")
            m.write(m.base_addr + it["offset"], bytes.fromhex(it["data"]))
    else:
        m = MM(3)
        m.from_xml(element=doc_element(doc))
    r = doc_ref(doc)
    for op in recipe["ops"]:
        if op[0] == "add":
            m.regs_add(offset=op[1], count=op[2], access=op[3])
            r.place(op[1], b"\0" * (2 * op[2]), op[3])
        elif op[1] in r.regs:
            m.write(r.base + op[1], bytes.fromhex(op[2]))
            r.write(r.base + op[1], bytes.fromhex(op[2]))
    return m, r


def header(m):
    return {k: getattr(m, k) for k in ("base_addr", "func", "ns", "lid", "mapid", "time")}


@part("C19", "roundtrip", lambda tier: st.fixed_dictionaries(
    {"map": built(), "how": HOW, "parent": st.booleans(), "no_data": st.sampled_from([False, False, False, True])}),
      quick=1300, rule="at least two register blocks")
def roundtrip(case, rec):
    m, r = no_error(build, "building a map", case["map"])
    before = [(b.offset, b.count, b.access, bytes(b.data)) for b in m.regs]
    kw = {}
    parent = None
    if case["parent"]:
        parent = kw["parent"] = ET.Element("file")
    if case["no_data"]:
        kw["no_data"] = True
    e = no_error(m.to_xml, "to_xml", **kw)
    if parent is not None:
        eq([x for x in parent] == [e], True, "to_xml adds the map to the parent element")
    eq([(b.offset, b.count, b.access, bytes(b.data)) for b in m.regs], before, "map after to_xml")
    with scratch() as d:
        m2 = no_error(load, "loading what to_xml wrote", e, case["how"], d)
    eq(header(m2), header(m), "header of the reloaded map")
    if case["map"].get("ctor"):
        eq({k: v for k, v in header(m).items() if k in ("ns", "lid", "mapid", "time")},
           {k: case["map"]["doc"]["head"].get(k) for k in ("ns", "lid", "mapid", "time")}, "descriptive attributes of the map")
        bad = ["coil", "", None, "Holding", 5, "discrete"][len(before) % 6]
        expect_error(ERR, MM, "map of function %r" % (bad,), 1, func=bad)
    rec.label(case["how"], "no data" if case["no_data"] else "data", "accesses %s" % len(set(b[2] for b in before)))
    if case["no_data"]:
        for o in r.regs:
            r.regs[o] = b"\0\0"
    compare_blocks(m2, r, "reloaded map")
    compare(m2, r, "reloaded map")
    if not case["no_data"]:
        eq(m.not_equal(m2), False, "comparison with the reloaded map")
        eq(m2.not_equal(m), False, "comparison of the reloaded map")
        # written again with other contents
        for x, what in ((m, "map"), (m2, "reloaded map")):
            mine = sorted(r.regs)
            for n in {0, len(mine) // 2, len(mine) - 1} if mine else ():
                v = bytes([r.regs[mine[n]][0] ^ 0x5a, r.regs[mine[n]][1]])
                no_error(x.write, "write", x.base_addr + mine[n], v)
                if x is m2:
                    r.regs[mine[n]] = v
            e = no_error(x.to_xml, "to_xml of the changed %s" % what)
            with scratch() as d:
                m3 = no_error(load, "loading the changed %s" % what, e, case["how"], d)
            eq(x.not_equal(m3), False, "comparison of the changed %s with what was written of it" % what)
            if x is m2:
                compare(m3, r, "changed map reloaded")
                eq(m.not_equal(m3), False, "comparison of both maps changed alike")
            elif mine:
                eq(bool(m.not_equal(m2)), True, "comparison of the changed map with the other")
    rec.nontrivial(len(r.blocks) > 1)


@part("C19", "large", lambda tier: st.fixed_dictionaries(
    {"map": st.fixed_dictionaries({"doc": large_document(), "ops": st.just([]), "ctor": st.integers(0, 3).map(lambda x: x == 0)}),
     "how": HOW, "parent": st.booleans(), "no_data": st.sampled_from([False, False, False, True]),
     "diff": st.sampled_from(["none", "data", "data", "data", "data", "access", "extra", "fewer", "count"]),
     "where": st.integers(0, 100000), "bit": st.integers(0, 15)}), quick=60,
      rule="maps made from documents of 12 to 260 register elements, taken through the round trip and compared with one that differs in one place")
def large_maps(case, rec):
    roundtrip(case, rec)
    compare_maps(case, rec)
    rec.nontrivial(len(case["map"]["doc"]["items"]) > 9)


@part("C19", "compare", lambda tier: st.fixed_dictionaries(
    {"map": built(min_items=1),
     "diff": st.sampled_from(["none", "data", "data", "data", "data all", "data swap", "base", "func", "offset", "count", "access", "extra", "fewer",
                              "header"]),
     "where": st.integers(0, 10000), "bit": st.integers(0, 15)}), quick=1300, rule="a difference is made")
def compare_maps(case, rec):
    a, r = no_error(build, "building a map", case["map"])
    b, _ = no_error(build, "building it again", case["map"])
    eq(a.not_equal(b), False, "comparison of two maps built alike")
    diff, w = case["diff"], case["where"]
    last = b.regs[-1]
    if diff == "data":
        o = sorted(r.regs)[w % len(r.regs)]
        v = int.from_bytes(r.regs[o], "big") ^ (1 << case["bit"])
        b.write(r.base + o, struct.pack(">H", v))
    elif diff == "data swap":
        # the same bytes in another order
        os_ = sorted(r.regs)
        o = os_[w % len(os_)]
        far = [x for x in os_ if r.regs[x] != r.regs[o]]
        if far and case["bit"] % 2:
            q = far[w % len(far)]
            b.write(r.base + o, r.regs[q])
            b.write(r.base + q, r.regs[o])
        elif r.regs[o][0] != r.regs[o][1]:
            b.write(r.base + o, r.regs[o][::-1])
        else:
            diff = "none"
    elif diff == "data all":
        # every byte of a run of registers
        blk = b.regs[w % len(b.regs)]
        for o in range(blk.offset, blk.offset + blk.count):
            v = int.from_bytes(r.regs[o], "big") ^ (0x0101 * (1 + (w + o) % 255))
            b.write(r.base + o, struct.pack(">H", v))
    elif diff == "base":
        b.base_addr = b.base_addr + 1
    elif diff == "func":
        b.func = 7 - b.func
    elif diff == "offset":
        blk = case["map"]
        b = MM(3)
        doc = dict(blk["doc"])
        b.from_xml(element=doc_element(dict(doc, items=[dict(i, offset=i["offset"] + 1, explicit=True)
                                                       for i in doc["items"]])))
        for op in blk["ops"]:
            if op[0] == "add":
                b.regs_add(offset=op[1] + 1, count=op[2], access=op[3])
            elif op[1] in r.regs:
                b.write(r.base + op[1] + 1, bytes.fromhex(op[2]))
    elif diff == "count":
        b.regs_add(offset=last.offset + last.count, count=1, access=last.access)
    elif diff == "access":
        blk = b.regs[w % len(b.regs)]
        blk.access = "r" if blk.access == "rw" else "rw"
    elif diff == "extra":
        b.regs_add(offset=last.offset + last.count + 1 + w % 3, count=1 + w % 2)
    elif diff == "fewer":
        b.regs.pop()
    elif diff == "header":
        # not part of the comparison: maps with other descriptive attributes hold the same registers
        b.mapid = "another"
    rec.label(diff)
    want = diff not in ("none", "header")
    for x, y, what in ((a, b, "first with second"), (b, a, "second with first")):
        got = no_error(x.not_equal, "not_equal", y)
        if bool(got) != want:
            fail("comparing %s map: not_equal gives %r, the difference is: %s", what, got, diff)
    compare(a, r, "map after comparison")
    rec.nontrivial(want)
