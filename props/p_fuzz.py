"""C29: malformed documents are refused cleanly."""
import copy, os, random, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
import harness, ref, gen
from harness import part, enumerated, fail, eq, expect_error, no_error, scratch
import p_device, p_map, p_misc
import sut

DOCUMENTED = {
    "smdx": (sut.util.SunSpecError,),
    "pics": (sut.util.SunSpecError,),
    "mbmap": (sut.mbmap.ModbusMapError,),
    "hex": (sut.mbmap.ModbusMapError,),
    "data": (sut.data.SunSpecDataError, ET.ParseError),
}
KINDS = ["smdx", "smdx", "pics", "pics", "mbmap", "data"]
ERR = sut.util.SunSpecError

# ------------------------------------------------------------------------------------ mutation

JUNK = ["", "0", "1", "-1", "2", "7", "65", "300", "999", "abc", "1.5", "0x10", " 3 ", "1e3", "\u0663", "None", "true", "false",
        "string", "sunssf", "pad", "int16", "float32", "fixed", "repeating", "rw", "-32768", "65535", "A_SF", "P1", "99999999999999999999",
        "nan", "%s%d", "\n", "+4", "1_0", "holding", "hexstr", "\ufffd", "&amp;"]
# lengths and indexes stay small enough that a document cannot ask for gigabytes of registers
BIG = ("99999999999999999999", "1e3")
SIZED = ("len", "offset", "addr")
NAMES = ["model", "block", "point", "symbol", "strings", "label", "notes", "device", "regs", "d", "m", "p", "mbmap",
         "sunSpecModels", "sunSpecPics", "sunSpecData", "Model", "{urn:x}block", "other"]
ATTRS = ["id", "len", "type", "offset", "sf", "access", "mandatory", "name", "index", "impl", "addr", "func", "x", "t", "ns", "units"]


@st.composite
def mutation(draw):
    return [draw(st.sampled_from(["drop", "drop", "set", "set", "set", "swap", "add", "remove", "rename", "dup", "move", "text",
                                  "tail", "clear", "comment"])),
            draw(st.integers(0, 10**6)), draw(st.integers(0, 10**6)), draw(st.integers(0, 10**6))]


def mutate(root, mut):
    """One change of the tree; anything goes."""
    op, a, b, c = mut
    nodes = [(None, root)] + [(p, e) for p in root.iter() for e in p]
    par, e = nodes[a % len(nodes)]
    if not isinstance(e.tag, str):
        return
    keys = sorted(e.attrib)
    key = keys[b % len(keys)] if keys else "id"
    junk = JUNK[c % len(JUNK)]
    if key in SIZED and junk in BIG:
        junk = "999"
    if op == "drop" and keys:
        del e.attrib[key]
    elif op == "set":
        e.set(key, junk)
    elif op == "swap":
        others = [x for _, x in nodes if x.tag == e.tag and key in x.attrib]
        if others:
            e.set(key, others[c % len(others)].get(key))
    elif op == "add":
        k = ATTRS[b % len(ATTRS)]
        e.set(k, "999" if k in SIZED and junk in BIG else junk)
    elif op == "remove" and par is not None:
        par.remove(e)
    elif op == "rename":
        e.tag = NAMES[c % len(NAMES)]
    elif op == "dup" and par is not None:
        par.insert(c % (len(par) + 1), copy.deepcopy(e))
    elif op == "move" and par is not None:
        below = set(e.iter())
        cand = [x for _, x in nodes if x not in below and isinstance(x.tag, str)]
        if cand:
            par.remove(e)
            t = cand[b % len(cand)]
            t.insert(c % (len(t) + 1), e)
    elif op == "text":
        e.text = junk
    elif op == "tail":
        e.tail = junk
    elif op == "clear":
        e.clear()
    elif op == "comment":
        e.insert(0, ET.Comment("x"))


@st.composite
def byte_change(draw):
    return [draw(st.sampled_from(["cut", "cut", "flip", "insert", "delete", "head", "encoding"])), draw(st.integers(0, 10**6)),
            draw(st.binary(min_size=1, max_size=6)).hex()]


def change_bytes(data, ch):
    op, at, h = ch
    b = bytes.fromhex(h)
    at %= len(data) + 1
    if op == "cut":
        return data[:at]
    if op == "flip":
        return data[:at] + bytes(x ^ y for x, y in zip(data[at:at + len(b)], b)) + data[at + len(b):]
    if op == "insert":
        return data[:at] + b + data[at:]
    if op == "delete":
        return data[:at] + data[at + 1 + b[0] % 20:]
    if op == "encoding":
        return [b"\xef\xbb\xbf", b"\xff\xfe", b"<?xml version='1.0' encoding='utf-16'?>", b"<?xml version='1.0' encoding='nope'?>",
                b"<!DOCTYPE x [<!ENTITY e 'x'>]>", b"\0"][b[0] % 6] + data
    return b + data


# ------------------------------------------------------------------------------------- documents

@st.composite
def document(draw, kind):
    if kind == "smdx":
        return {"def": draw(p_device.full_definition())}
    if kind == "pics":
        return {"load": draw(p_device.load_case())}
    if kind == "mbmap":
        return {"doc": draw(p_map.document(min_items=1))}
    return {"rec": draw(p_misc.record_case())}


def element(kind, doc):
    if kind == "smdx":
        return ref.smdx_element(doc["def"])
    if kind == "pics":
        return p_device.pics_root(p_device.pics_doc(doc["load"]))
    if kind == "mbmap":
        return p_map.doc_element(doc["doc"])
    t = p_misc.record_tree(doc["rec"])

    def build(n):
        e = ET.Element(n[0], n[1])
        e.text = n[2]
        e.extend(build(x) for x in n[3])
        return e
    return build(t)


def loads(kind, data, tmp, mid, lens=()):
    """The ways of loading a document of this kind: functions that succeed or raise what is documented."""
    name = os.path.join(tmp, "bad.xml")
    with open(name, "wb") as f:
        f.write(data)
    try:
        root = ET.fromstring(data)
    except Exception:
        root = None
    if kind == "smdx":
        with open(os.path.join(tmp, ref.smdx_name(mid)), "wb") as f:
            f.write(data)
        yield "model_type_get", lambda: sut.device.model_type_get(mid)
        for n in lens:
            yield "Model.load with length %d" % n, lambda: sut.device.Model(None, mid, 40002, n).load()
        yield "PICS with the model", lambda: sut.device.Device().from_pics(
            element=ET.fromstring("<device><model id='%d'/></device>" % mid))
    elif kind == "pics":
        yield "from_pics", lambda: sut.device.Device().from_pics(filename=name)
        yield "from_pics by path list", lambda: sut.device.Device().from_pics(filename="bad.xml", pathlist=sut.util.PathList([tmp]))
        if root is not None:
            yield "from_pics of the root element", lambda: sut.device.Device().from_pics(element=root)
            if len(root):
                yield "from_pics of an element", lambda: sut.device.Device().from_pics(element=root[-1])
    elif kind == "mbmap":
        yield "from_xml", lambda: use_map(lambda m: m.from_xml(name))
        yield "from_xml by path list", lambda: use_map(lambda m: m.from_xml("bad.xml", pathlist=sut.util.PathList([tmp])))
        if root is not None:
            yield "from_xml of an element", lambda: use_map(lambda m: m.from_xml(element=root))
    elif kind == "hex":
        yield "from_hex", lambda: use_map(lambda m: m.from_hex(name))
    else:
        yield "SunSpecData", lambda: sut.data.SunSpecData(data_record=data)
        if root is not None:
            yield "from_xml", lambda: sut.data.SunSpecData().from_xml(element=root)


def use_map(fn):
    """A map that loads is usable: it holds what its blocks say."""
    m = sut.mbmap.ModbusMap(1)
    fn(m)
    end = None
    for r in m.regs:
        if len(r.data) != 2 * r.count:
            fail("the loaded map has a block of %r registers with %d bytes", r.count, len(r.data))
        if end is not None and r.offset < end:
            fail("the loaded map has overlapping blocks")
        end = r.offset + r.count
        if r.count:
            eq(bytes(m.read(m.base_addr + r.offset, r.count)), bytes(r.data), "registers of the loaded map")
            # no register outside the blocks
            for a in (m.base_addr + r.offset - 1,):
                if not any(x.offset <= a - m.base_addr < x.offset + x.count for x in m.regs):
                    expect_error(sut.mbmap.ModbusMapError, m.read, "register outside the loaded map", a, 1)
    return m


def check_bad(kind, data, tmp, mid, lens, rec):
    refused = 0
    for what, fn in loads(kind, data, tmp, mid, lens):
        try:
            fn()
        except DOCUMENTED[kind]:
            refused += 1
        except (harness.Violation, harness.Hang, KeyboardInterrupt):
            raise
        except Exception as e:
            import traceback
            fail("%s of a malformed document raises %s (%s) rather than %s\n%s\n%s", what, type(e).__name__, e,
                 harness._names(DOCUMENTED[kind]), data[:2000], traceback.format_exc())
        if sut.device.file_pathlist is None or list(sut.device.file_pathlist.path) != [tmp]:
            fail("the path list in effect is not the one from before loading (%s)", what)
    rec.label("%s %s" % (kind, "refused" if refused else "accepted"))


def check_good(kind, doc, tmp):
    """The good document loads as it would have without the bad one before."""
    if kind == "smdx":
        d = doc["def"]
        p_device.write_def(d, tmp)
        p_device.check_type(no_error(sut.device.model_type_get, "loading the good definition afterwards", d["id"]), d, "afterwards: ")
    elif kind == "pics":
        c = doc["load"]
        dev = sut.device.Device()
        no_error(dev.from_pics, "loading the good document afterwards", element=p_device.pics_doc(c))
        eq([m.id for m in dev.models_list], [m["id"] for m in c["models"]], "models of the good document")
    elif kind == "mbmap":
        m = sut.mbmap.ModbusMap(1)
        no_error(m.from_xml, "loading the good map afterwards", element=p_map.doc_element(doc["doc"]))
        p_map.compare(m, p_map.doc_ref(doc["doc"]), "good map loaded afterwards")
    else:
        back = no_error(sut.data.SunSpecData, "loading the good record afterwards", element=element(kind, doc))
        eq(p_misc.objects(back), p_misc.want_objects(doc["rec"]), "good record loaded afterwards")


@st.composite
def fuzz_case(draw):
    kind = draw(st.sampled_from(KINDS))
    return {"kind": kind, "doc": draw(document(kind)), "mut": draw(st.lists(mutation(), min_size=1, max_size=4)),
            "bytes": draw(st.lists(byte_change(), max_size=2)) if draw(st.integers(0, 3)) == 0 else [],
            "lens": draw(st.lists(st.integers(0, 40), max_size=2))}


@part("C29", "mutated", lambda tier: fuzz_case(), quick=900, thorough=60000, rule="the changes made the document a different one")
def mutated(case, rec):
    kind, doc = case["kind"], case["doc"]
    root = element(kind, doc)
    good = ET.tostring(root)
    for m in case["mut"]:
        mutate(root, m)
    data = ET.tostring(root, encoding="utf-8") if len(case["mut"]) % 2 else ET.tostring(root)
    for ch in case["bytes"]:
        data = change_bytes(data, ch)
    rec.nontrivial(data != good)
    mid = doc["def"]["id"] if kind == "smdx" else 1
    defs = doc["load"]["defs"] if kind == "pics" else []
    with p_device.definitions(*defs) as tmp:
        check_bad(kind, data, tmp, mid, case["lens"], rec)
        check_good(kind, doc, tmp)


@st.composite
def lean_pics(draw):
    """A PICS document over a damaged definition."""
    return {"load": draw(p_device.load_case()), "mut": draw(st.lists(mutation(), min_size=1, max_size=3)), "which": draw(st.integers(0, 3))}


@part("C29", "pics-over-bad-definition", lambda tier: lean_pics(), quick=250, thorough=12000, rule="every case")
def over_bad_definition(case, rec):
    c = case["load"]
    bad = c["defs"][case["which"] % len(c["defs"])]
    root = ref.smdx_element(bad)
    for m in case["mut"]:
        mutate(root, m)
    with p_device.definitions(*c["defs"]) as tmp:
        p_device.write_def(bad, tmp, ET.tostring(root))
        dev = sut.device.Device()
        res, err = harness.attempt(ERR, dev.from_pics, "PICS document over a damaged definition", element=p_device.pics_doc(c))
        rec.label("refused" if err else "loaded")
        p_device.write_def(bad, tmp)
        check_good("pics", {"load": c}, tmp)


@st.composite
def raw_case(draw):
    kind = draw(st.sampled_from(["smdx", "pics", "mbmap", "hex", "hex", "data"]))
    if kind == "hex" and draw(st.booleans()):
        text = draw(st.text(st.sampled_from("0123456789abcdefx# \n\t\rg-_"), max_size=80)).encode()
    else:
        text = b"".join(draw(st.lists(st.sampled_from(TOKENS), max_size=14)))
        if draw(st.booleans()):
            text = {"smdx": b"<sunSpecModels>%s</sunSpecModels>", "pics": b"<sunSpecPics>%s</sunSpecPics>", "mbmap": b"<mbmap>%s</mbmap>",
                    "hex": b"%s", "data": b"<sunSpecData>%s</sunSpecData>"}[kind] % text
    return {"kind": kind, "data": text.hex(), "lens": draw(st.lists(st.integers(0, 30), max_size=2))}


TOKENS = [b"<model id='5' len='4'>", b"<model id='5' len='4'/>", b"</model>", b"<block len='2'>", b"<block len='2' type='repeating'>",
          b"<block len='0' type='repeating'/>", b"<block type='repeating' len='-1'/>", b"</block>",
          b"<point id='A' offset='0' type='int16'/>", b"<point id='B' offset='1' type='string' len='0'/>", b"<point id='A'>5</point>",
          b"<point/>", b"<strings id='5'>", b"</strings>", b"<device>", b"<device addr='1'>", b"<device/>", b"</device>",
          b"<regs type='u16'>5</regs>", b"<regs offset='2' len='3'/>", b"<regs type='string'/>", b"<regs/>", b"<regs len='-1'/>",
          b"<regs len='1' type='string'>abc</regs>", b"<d>", b"</d>", b"<d t='x'/>", b"<m id='1'>", b"<m/>", b"<m x='y'/>", b"</m>", b"<p/>",
          b"<p sf='a'/>", b"<p index=''/>", b"<p id='x'>1</p>", b"text", b"<!-- c -->", b"&lt;", b"&bad;", b"<", b">", b"\xff", b"12 34", b"00 01\n"]


@part("C29", "raw", lambda tier: raw_case(), quick=500, thorough=40000, rule="the document is not empty")
def raw(case, rec):
    data = bytes.fromhex(case["data"])
    rec.nontrivial(bool(data))
    with p_device.definitions() as tmp:
        check_bad(case["kind"], data, tmp, 5, case["lens"], rec)


# ----------------------------------------------------------------------------- every single change

SINGLE_JUNK = ["", "abc", "-1", "0", "1.5", "999"]
PREFIXES = [b"\xef\xbb\xbf", b"\xff\xfe", b"<?xml version='1.0' encoding='utf-16'?>", b"<?xml version='1.0' encoding='nope'?>",
            b"<?xml version='1.0' encoding='shift_jis'?>", b"<!DOCTYPE x [<!ENTITY e 'x'>]>", b"\0"]


def single_cases(tier):
    """Every attribute, text and element of one rich document of each kind: dropped, doubled or replaced by junk."""
    junk = SINGLE_JUNK if tier == "quick" else [j for j in JUNK if j not in BIG]
    for kind in ("smdx", "pics", "mbmap", "data"):
        doc = seeds(kind)[0]
        for k in range(len(PREFIXES)):
            yield {"kind": kind, "how": "prefix", "n": k}
        yield {"kind": kind, "how": "cut", "n": len(doc) // 2}
        for n, e in enumerate(ET.fromstring(doc).iter()):
            for key in sorted(e.attrib):
                for j in [None] + junk:
                    yield {"kind": kind, "how": "attr", "n": n, "key": key, "junk": j}
            for j in junk:
                yield {"kind": kind, "how": "text", "n": n, "junk": j}
            for how in ("remove", "dup", "rename", "empty"):
                yield {"kind": kind, "how": how, "n": n}


def single_doc(case):
    data = seeds(case["kind"])[0]
    how, n = case["how"], case["n"]
    if how == "prefix":
        return PREFIXES[n] + data
    if how == "cut":
        return data[:n]
    root = ET.fromstring(data)
    e = list(root.iter())[n]
    par = [p for p in root.iter() if e in list(p)]
    if how == "attr":
        if case["junk"] is None:
            del e.attrib[case["key"]]
        else:
            e.set(case["key"], case["junk"])
    elif how == "text":
        e.text = case["junk"]
    elif how == "rename":
        e.tag = "other"
    elif how == "empty":
        for x in list(e):
            e.remove(x)
    elif par and how == "remove":
        par[0].remove(e)
    elif par and how == "dup":
        par[0].insert(0, copy.deepcopy(e))
    return ET.tostring(root)


SEED_DEF = {"id": 7, "len": 6, "name": None,
            "fixed": {"len": 3, "name": None, "points": [{"id": "A", "offset": 0, "type": "int16", "sf": "S"},
                                                         {"id": "S", "offset": 1, "type": "sunssf"}]},
            "repeating": {"len": 3, "name": None, "points": [{"id": "B", "offset": 0, "type": "string", "len": 3}]}}


@enumerated("C29", "every-single-change", single_cases, rule="the change made the document a different one")
def every_single_change(case, rec):
    data = single_doc(case)
    rec.nontrivial(data != seeds(case["kind"])[0])
    with p_device.definitions(SEED_DEF) as tmp:
        check_bad(case["kind"], data, tmp, 5, [0, 7], rec)


# ------------------------------------------------------------------------- coverage-guided (atheris)

FUZZ_KINDS = ["smdx", "pics", "mbmap", "data", "hex"]


def atheris_cases(tier):
    """In the thorough tier: inputs found by coverage-guided fuzzing of the loaders, decided here."""
    if tier != "thorough":
        return []
    work = tempfile.mkdtemp(prefix="verif_ath_")
    out = []
    try:
        procs = []
        secs = int(float(os.environ.get("VERIF_FUZZ_S", "180")))
        for i, kind in enumerate(FUZZ_KINDS):
            d = os.path.join(work, kind)
            os.makedirs(os.path.join(d, "corpus"))
            for k, s in enumerate(seeds(kind)):
                with open(os.path.join(d, "corpus", "seed%d" % k), "wb") as f:
                    f.write(s)
            with open(os.path.join(d, "dict"), "w") as f:
                for t in sorted(set(JUNK + NAMES + ATTRS)):
                    t = "".join("\\x%02x" % b for b in t.encode())
                    if t:
                        f.write('"%s"\n' % t)
            cmd = [sys.executable, os.path.join(harness.VERIF, "lib", "fuzz_target.py"), kind, os.path.join(d, "corpus"),
                   "-dict=" + os.path.join(d, "dict"), "-artifact_prefix=" + d + "/", "-max_len=1500", "-timeout=20",
                   "-rss_limit_mb=3000", "-seed=%d" % (harness.SEED % 2**31 + 1), "-max_total_time=%d" % secs, "-verbosity=0"]
            log = open(os.path.join(d, "log"), "wb")
            procs.append(subprocess.Popen(cmd, stdout=log, stderr=log, cwd=d))
        for p in procs:
            try:
                p.wait(timeout=secs + 120)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        for kind in FUZZ_KINDS:
            d = os.path.join(work, kind)
            for f in sorted(os.listdir(d)):
                if f.startswith(("crash-", "timeout-", "oom-")):
                    out.append({"kind": kind, "data": open(os.path.join(d, f), "rb").read().hex(), "lens": [0, 7]})
            for f in sorted(os.listdir(os.path.join(d, "corpus"))):
                out.append({"kind": kind, "data": open(os.path.join(d, "corpus", f), "rb").read().hex(), "lens": [0, 7]})
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


def seeds(kind):
    r = random.Random(harness.SEED)
    if kind == "hex":
        return [b"00 01 02 03\n# c\n0xff 10\n"]
    base = {"smdx": b"<sunSpecModels><model id='5' len='6' name='x'><block len='3'><point id='A' offset='0' type='int16' sf='S'/>"
                    b"<point id='S' offset='1' type='sunssf'/></block><block type='repeating' len='3'><point id='B' offset='0' type='string' len='3' "
                    b"access='rw' mandatory='true' units='V'><symbol id='ON'>1</symbol></point></block></model><strings id='5'><model><label>l</label></model>"
                    b"<point id='A'><notes>n</notes></point></strings></sunSpecModels>",
            "pics": b"<sunSpecPics><device addr='0'><model id='7' len='6' index='2'><block><point id='A'>1</point><point id='S' impl='false'/></block>"
                    b"<block type='repeating' index='1'><point id='B' access='rw'>x</point></block></model><model id='9'/></device></sunSpecPics>",
            "mbmap": b"<mbmap addr='0' func='input' ns='a'><regs offset='1' len='2' type='string' access='rw'>ab</regs><regs type='s64'>-1</regs>"
                     b"<regs type='hexstr'>12 34</regs><regs type='f32'>1.5</regs></mbmap>",
            "data": b"<sunSpecData v='1'><d lid='a' t='2013-12-20T17:29:24Z'><m id='1' x='2'><p id='A' sf='1' index='2'>3</p></m></d></sunSpecData>"}[kind]
    return [base]


@enumerated("C29", "coverage-guided", atheris_cases,
            rule="thorough tier only: every input that coverage-guided fuzzing (atheris) of the loaders kept or failed on")
def coverage_guided(case, rec):
    raw(case, rec)
