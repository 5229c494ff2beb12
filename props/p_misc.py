"""C24 SunSpec data records, C25 path lists."""
import contextlib, datetime, os, time, zipfile
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from harness import part, fail, eq, expect_error, no_error, scratch
import ref, sut

SD = sut.data.SunSpecData
DERR = sut.data.SunSpecDataError

# --------------------------------------------------------------------------------------- C24

CHARS = st.characters(min_codepoint=32, max_codepoint=0x2fff, exclude_characters="\x7f", exclude_categories=("Cs", "Cc"))
ATTR = st.one_of(st.sampled_from(["Man", "00:00:00:00:00:01", "a&b", "<x>\"'", " sp ", "\u00fc\u4e2d", "tab\tnl\n", "0"]),
                 st.text(CHARS, min_size=1, max_size=12))
DEV = ["logger_id", "man", "mod", "sn", "cid", "device_id", "ifc", "namespace"]
DEV_XML = {"logger_id": "lid", "man": "man", "mod": "mod", "sn": "sn", "cid": "cid", "device_id": "id", "ifc": "if",
           "namespace": "ns"}


@st.composite
def point(draw):
    p = {"point_id": draw(st.one_of(st.sampled_from(["P1", "W", "PhVphA"]), ATTR))}
    if draw(st.integers(0, 7)):
        p["value"] = draw(st.one_of(st.integers(-10**9, 10**12), st.floats(allow_nan=False, allow_infinity=False),
                                    ATTR, st.sampled_from(["0", "1.50", " x ", "line1\nline2", "]]>", 0, 1.0, -1])))
    if draw(st.booleans()):
        p["index"] = draw(st.one_of(st.integers(1, 4), st.integers(1, 100000)))
    if draw(st.booleans()):
        p["sf"] = draw(st.integers(-10, 10))
    if draw(st.booleans()):
        p["time"] = draw(st.sampled_from(["2013-12-20T17:29:24Z", "now", "1"]))
    return p


@st.composite
def model(draw):
    m = {"model_id": draw(st.one_of(st.integers(1, 65535), st.sampled_from(["1", "64001", "x"])))}
    if draw(st.booleans()):
        m["index"] = draw(st.one_of(st.integers(1, 3), st.integers(1, 1000)))
    if draw(st.booleans()):
        m["namespace"] = draw(ATTR)
    m["points"] = draw(st.lists(point(), max_size=4))
    return m


STAMP = st.one_of(st.sampled_from([-1, -59, -1000000000, -86400 * 365.25, 2 ** 31, 2 ** 32, 2 ** 32 + 0.5, 2 ** 33, 253402300799]),
                  st.sampled_from([0, 1, 1387560564.48, 951782400, 4102444799.999, 1e9, 0.0]),
                  st.floats(0, 4e9), st.integers(0, 4 * 10**9))


@st.composite
def device(draw):
    d = {k: draw(ATTR) for k in DEV if draw(st.booleans())}
    if draw(st.booleans()):
        d["timestamp"] = draw(STAMP)
        d["late"] = draw(st.booleans())
    d["models"] = draw(st.lists(model(), max_size=3))
    return d


@st.composite
def record_case(draw):
    return {"devices": draw(st.lists(device(), max_size=3)), "version": draw(st.sampled_from([None, None, "1", "2"])),
            "write": draw(st.sampled_from(["str", "str", "pretty", "tree", "parent"])),
            "tz": draw(st.sampled_from(ZONES)),
            "read": draw(st.sampled_from(["ctor", "method", "element", "ctor element"])), "positional": draw(st.booleans())}


@st.composite
def large_record_case(draw):
    """Many devices, models, points; long texts."""
    c = draw(record_case())
    pts = draw(st.lists(point(), min_size=1, max_size=5))
    m, n, k = draw(st.sampled_from([(1, 1, 200), (1, 40, 3), (30, 2, 2), (9, 9, 9), (1, 1, 1030), (130, 1, 1), (1, 260, 1)]))
    dev, mod = draw(device()), draw(model())
    for i in range(m):
        d = dict(dev, device_id=str(i), models=[])
        for j in range(n):
            mm = dict(mod, index=j + 1, points=[dict(pts[(i + j + x) % len(pts)], index=x + 1) for x in range(k)])
            d["models"].append(mm)
        c["devices"].append(d)
    if draw(st.booleans()):
        long = draw(st.text(CHARS, min_size=1, max_size=9)) * draw(st.sampled_from([30, 300, 10000]))
        d = c["devices"][draw(st.integers(0, len(c["devices"]) - 1))]
        d[draw(st.sampled_from(DEV))] = long
        if d["models"] and d["models"][-1]["points"]:
            d["models"][-1]["points"][-1] = dict(d["models"][-1]["points"][-1], value=long[::-1])
    return c


def stamp(t):
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(t))).strftime("%Y-%m-%dT%H:%M:%SZ")


def make_record(case):
    sd = SD()
    sd.version = case["version"]
    for d in case["devices"]:
        kw = {k: v for k, v in d.items() if k in DEV}
        if "timestamp" in d and not d["late"]:
            kw["timestamp"] = d["timestamp"]
        dd = sd.device_add(**kw)
        if "timestamp" in d and d["late"]:
            dd.timestamp_add(d["timestamp"])
        for m in d["models"]:
            if case["positional"]:
                args = [m["model_id"], m.get("index"), m.get("namespace")]
                while len(args) > 1 and args[-1] is None:
                    args.pop()
                mm = dd.model_add(*args)
            else:
                mm = dd.model_add(**{k: v for k, v in m.items() if k != "points"})
            for p in m["points"]:
                if case["positional"]:
                    pp = mm.point_add(p["point_id"], p.get("value"), p.get("index"), p.get("sf"), "V", "volts", p.get("time"))
                    eq((pp.units, pp.desc), ("V", "volts"), "units and description of a point added")
                else:
                    pp = mm.point_add(**p)
                eq((pp.point_id, pp.value, pp.index, pp.sf, pp.time), tuple(p.get(k) for k in ("point_id", "value", "index", "sf", "time")),
                   "point added")
    return sd


def record_tree(case):
    """The record as plain data: (tag, attributes, text, children)."""
    devs = []
    for d in case["devices"]:
        a = {DEV_XML[k]: v for k, v in d.items() if k in DEV}
        if "timestamp" in d:
            a["t"] = stamp(d["timestamp"])
        ms = []
        for m in d["models"]:
            ma = {"id": str(m["model_id"])}
            if m.get("index", 1) > 1:
                ma["x"] = str(m["index"])
            if "namespace" in m:
                ma["ns"] = m["namespace"]
            ps = []
            for p in m["points"]:
                pa = {"id": p["point_id"]}
                for k, x in (("index", "index"), ("sf", "sf"), ("time", "t")):
                    if k in p:
                        pa[x] = str(p[k])
                ps.append(("p", pa, str(p["value"]) if "value" in p else None, []))
            ms.append(("m", ma, None, ps))
        devs.append(("d", a, None, ms))
    return ("sunSpecData", {} if case["version"] is None else {"v": case["version"]}, None, devs)


def tree(e):
    kids = [tree(x) for x in e]
    text = e.text
    if e.tag != "p":
        text = text if text and text.strip() else None
    return (e.tag, dict(e.attrib), text, kids)


def objects(sd):
    """The record read back, as plain data."""
    return [({k: getattr(d, k) for k in DEV}, d.timestamp,
             [(m.model_id, m.index, m.namespace, [(p.point_id, p.value, p.index, p.sf, p.time) for p in m.point_data])
              for m in d.model_data]) for d in sd.device_data]


def want_objects(case):
    return [({k: d.get(k) for k in DEV}, stamp(d["timestamp"]) if "timestamp" in d else None,
             [(str(m["model_id"]), m.get("index") if m.get("index", 1) > 1 else None, m.get("namespace"),
               [(p["point_id"], str(p["value"]) if "value" in p else None, p.get("index"), p.get("sf"), p.get("time"))
                for p in m["points"]]) for m in d["models"]]) for d in case["devices"]]


ZONES = ["UTC", "America/New_York", "Europe/Berlin", "XYZ-5:30", "ABC12", "CET-1CEST,M3.5.0,M10.5.0/3"]


@contextlib.contextmanager
def zone(tz):
    """The process in another time zone."""
    old = os.environ.get("TZ")
    try:
        os.environ["TZ"] = tz
        time.tzset()
        yield
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


@part("C24", "roundtrip", lambda tier: record_case(), quick=700, rule="a record with at least one model")
def record_roundtrip(case, rec):
    with zone(case.get("tz", "UTC")):
        check_roundtrip(case, rec)


def check_roundtrip(case, rec):
    sd = no_error(make_record, "building a record", case)
    how = case["write"]
    rec.label(how, case["read"])
    if how in ("str", "pretty"):
        text = no_error(sd.to_xml_str, "to_xml_str", pretty_print=how == "pretty")
        eq(isinstance(text, str), True, "to_xml_str gives text")
        again = no_error(sd.to_xml_str, "to_xml_str again", pretty_print=how == "pretty")
        eq(again, text, "XML written a second time")
        if how == "pretty" and case["devices"]:
            eq(text.count("\n") >= len(case["devices"]), True, "line breaks of pretty printed XML")
    else:
        parent = ET.Element("file") if how == "parent" else None
        no_error(sd.to_xml, "to_xml", parent)
        root = sd.root
        if parent is not None:
            eq(list(parent), [root], "the record is added to the parent element")
        text = ET.tostring(root).decode("ascii")
        for p in (parent, None, ET.Element("file")):
            no_error(sd.to_xml, "to_xml again", p)
            eq(ET.tostring(sd.root).decode("ascii"), text, "XML written again")
            if p is not None:
                eq(list(p)[-1], sd.root, "the record written again is added to the parent element")
    root = ET.fromstring(text)
    eq(tree(root), record_tree(case), "XML written")
    read = case["read"]
    if read == "ctor":
        back = no_error(SD, "reading", data_record=text)
    elif read == "method":
        back = SD()
        no_error(back.from_xml, "reading", data_record=text)
    elif read == "element":
        back = SD()
        no_error(back.from_xml, "reading", element=root)
    else:
        back = no_error(SD, "reading", element=root)
    eq(objects(back), want_objects(case), "record read back")
    eq(back.version, case["version"], "version read back")
    # as a document in an encoding it declares
    doc = ref.xml_doc(root, ref.ENCODINGS[len(text) % len(ref.ENCODINGS)])
    eq(objects(no_error(SD, "reading a document", data_record=doc)), want_objects(case), "record read from the document %r" % doc[:60])
    text2 = no_error(back.to_xml_str, "writing what was read")
    eq(tree(ET.fromstring(text2)), record_tree(case), "XML of the record read back")
    # both grow and are written again
    for x, what in ((sd, "the record"), (back, "the record read back")):
        more = grown(case)
        for d, dd in zip(more["devices"], x.device_data):
            dd.mod = d.get("mod")
            for m, mm in zip(d["models"], dd.model_data):
                for p, pp in zip(m["points"], mm.point_data):
                    pp.value = p.get("value")
                for p in m["points"][len(mm.point_data):]:
                    mm.point_add(**p)
            for m in d["models"][len(dd.model_data):]:
                dd.model_add(m["model_id"])
        for k in range(6):
            if k == 3:
                x.device_add(device_id="added")
                more = dict(more, devices=more["devices"] + [{"device_id": "added", "models": []}])
            parent = ET.Element("file")
            if k % 3 == 0:
                no_error(x.to_xml, "to_xml of %s that has grown" % what, parent)
                root = list(parent)[-1]
            elif k % 3 == 1:
                no_error(x.to_xml, "to_xml of %s that has grown" % what)
                root = x.root
            else:
                root = ET.fromstring(no_error(x.to_xml_str, "to_xml_str of %s that has grown" % what))
            eq(tree(root), record_tree(more), "XML of %s that has grown" % what)
    rec.nontrivial(any(d["models"] for d in case["devices"]))


def grown(case):
    """The record with another model of a device, a point, values and a device's model changed."""
    devs = []
    for n, d in enumerate(case["devices"]):
        models = []
        for k, m in enumerate(d["models"]):
            pts = [dict(p, value="v%d" % i) if (i + k) % 3 == 0 else p for i, p in enumerate(m["points"])]
            if (n + k) % 2 == 0:
                pts = pts + [{"point_id": "Added", "value": 5, "sf": -1}]
            models.append(dict(m, points=pts))
        d = dict(d, models=models + ([{"model_id": 64999, "points": []}] if n % 2 == 0 else []))
        if n % 3 == 0:
            d["mod"] = "other"
        devs.append(d)
    return dict(case, devices=devs)


@part("C24", "large", lambda tier: large_record_case(), quick=60,
      rule="records of up to 130 devices, 260 models of a device, 1030 points of a model, texts of up to 90000 characters; all non-trivial")
def record_large(case, rec):
    record_roundtrip(case, rec)


@part("C24", "refused", lambda tier: st.fixed_dictionaries(
    {"rec": record_case(), "level": st.integers(0, 3), "k": st.integers(0, 11), "tag": st.sampled_from(["x", "D", "device", "own"])}),
      quick=250, rule="every case in which there is a place for the unexpected element")
def record_refused(case, rec):
    c = case["rec"]
    sd = make_record(c)
    root = ET.fromstring(sd.to_xml_str())
    tags = ["sunSpecData", "d", "m", "p"]
    lvl = case["level"]
    rec.label("level %d" % lvl)
    if lvl == 0:
        root.tag = ["sunSpecPics", "d", "SunSpecData"][case["k"] % 3]
    else:
        places = root.iter(tags[lvl - 1])
        places = list(places)
        if not places:
            rec.nontrivial(False)
            return
        parent = places[case["k"] % len(places)]
        tag = case["tag"]
        if tag == "own":
            tag = tags[(lvl + 1) % 4]
        parent.insert(case["k"] % (len(parent) + 1), ET.Element(tag, {"id": "1"}))
    if case["k"] % 2:
        expect_error(DERR, SD, "record with an unexpected element", data_record=ET.tostring(root))
    else:
        expect_error(DERR, SD().from_xml, "record with an unexpected element", element=root)


@part("C24", "refused-text", lambda tier: st.fixed_dictionaries(
    {"rec": record_case(), "k": st.integers(0, 500), "kind": st.sampled_from(["cut", "encoding", "multi-byte", "entity", "tail"])}),
      quick=120, rule="every case")
def record_refused_text(case, rec):
    text = make_record(case["rec"]).to_xml_str()
    kind, k = case["kind"], case["k"]
    if kind == "cut":
        text = text[:k % len(text)]
    elif kind == "encoding":
        text = "<?xml version='1.0' encoding='%s'?>%s" % (["klingon", "utf-99", "x"][k % 3], text)
        text = text.encode()
    elif kind == "multi-byte":
        text = ("<?xml version='1.0' encoding='%s'?>%s" % (["shift_jis", "big5", "gb2312", "euc-jp"][k % 4], text)).encode()
    elif kind == "entity":
        text = text.replace("<sunSpecData", "<sunSpecData z='&none;'", 1)
    else:
        text += ["x", "<a/>", "</sunSpecData>", "&"][k % 4]
    rec.label(kind)
    how = SD if k % 2 else SD().from_xml
    expect_error((DERR, ET.ParseError), how, "a text that is no XML document (%s)" % kind, data_record=text)


@part("C24", "refused-number", lambda tier: st.fixed_dictionaries(
    {"rec": record_case(), "k": st.integers(0, 50), "attr": st.sampled_from(["x", "index", "sf"]),
     "junk": st.sampled_from(["", "a", "1.5", "0x1", "one", "1 2"])}),
      quick=120, rule="every case in which there is a place for the attribute")
def record_refused_number(case, rec):
    root = ET.fromstring(make_record(case["rec"]).to_xml_str())
    places = list(root.iter("m" if case["attr"] == "x" else "p"))
    rec.nontrivial(places)
    if not places:
        return
    places[case["k"] % len(places)].set(case["attr"], case["junk"])
    expect_error(DERR, SD, "record with %s=%r" % (case["attr"], case["junk"]), data_record=ET.tostring(root))


@part("C24", "now", lambda tier: st.fixed_dictionaries({"rec": record_case(), "explicit": st.booleans()}),
      quick=30, rule="the record has a device")
def record_now(case, rec):
    with zone(case["rec"].get("tz", "UTC")):
        check_now(case, rec)


def check_now(case, rec):
    sd = make_record(case["rec"])
    rec.nontrivial(sd.device_data)
    for d in sd.device_data:
        t0 = int(time.time())
        d.timestamp_add(None) if case["explicit"] else d.timestamp_add()
        t1 = int(time.time())
        eq(d.timestamp in [stamp(t) for t in range(t0, t1 + 1)], True, "time stamp %s of a device stamped between %d and %d" % (d.timestamp, t0, t1))
    got = [d.timestamp for d in SD(data_record=sd.to_xml_str()).device_data]
    eq(got, [d.timestamp for d in sd.device_data], "time stamps read back")


# --------------------------------------------------------------------------------------- C25

PLACES = ["d0", "d1", "d2/sub", "z0.zip", "z0.zip/in", "z0.zip/in/deep", "z1.zip", "d1/z2.zip/q", "none", "d2/none", "none.zip",
          "none.zip/in", "d0/none.zip", "a.zip.d", "zip", "b.zipped/x", "c.zip.d/z3.zip/in", "sp ace", "dot.", "\u00e9t\u00e9.zip", "d0.zip",
          "dir.zip", "dir.zip/sub", "dir.zip/z4.zip", "z0.zip/x.zip/y", "none-garbage.zip", "none-garbage.zip/in", "none-empty.zip"]


def zip_split(p):
    """-> (zip file, folder inside) or (None, None)"""
    parts = p.split("/")
    for i, e in enumerate(parts):
        if e.endswith(".zip") and e != "dir.zip":       # that is a directory
            return "/".join(parts[:i + 1]), "/".join(parts[i + 1:])
    return None, None


NAMES = ["a.xml", "b.txt", "sub/c.xml"]


@st.composite
def path_case(draw):
    entries = draw(st.lists(st.tuples(st.sampled_from(PLACES), st.sampled_from(["", "", "", "/"]),
                                      st.sampled_from(["abs", "abs", "rel"])), min_size=0, max_size=7))
    files = [p for p in PLACES if "none" not in p]
    has = {}
    for p in files:
        for n in NAMES:
            if draw(st.integers(0, 2)) == 0:
                has.setdefault(p, []).append(n)
    return {"entries": [list(e) for e in entries], "has": has, "ctor": draw(st.integers(0, 7)),
            "reads": draw(st.lists(st.sampled_from(NAMES + ["nowhere.xml"]), min_size=1, max_size=5)),
            "dirname": draw(st.integers(0, 7)) == 0}


def content(place, name):
    return ("%s:%s" % (place, name)).encode() + bytes(range(256))


@part("C25", "first", lambda tier: path_case(), quick=1200,
      rule="the file is found, and not in the first entry, or more than one entry has it")
def first_instance(case, rec):
    with scratch() as tmp:
        zips = {}
        for p in PLACES:
            if "none" in p:
                continue
            if zip_split(p)[0]:
                zf = os.path.join(tmp, zip_split(p)[0])
                os.makedirs(os.path.dirname(zf), exist_ok=True)
                inner = zip_split(p)[1]
                z = zips.setdefault(zf, {"readme": b"x"})
                for n in case["has"].get(p, []):
                    z[(inner + "/" if inner else "") + n] = content(p, n)
            else:
                for n in case["has"].get(p, []):
                    f = os.path.join(tmp, p, n)
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    with open(f, "wb") as fh:
                        fh.write(content(p, n))
                os.makedirs(os.path.join(tmp, p), exist_ok=True)
        for zf, members in zips.items():
            with zipfile.ZipFile(zf, "w", zipfile.ZIP_DEFLATED if len(members) % 2 else zipfile.ZIP_STORED) as z:
                for n, data in members.items():
                    z.writestr(n, data)
        with open(os.path.join(tmp, "none-garbage.zip"), "wb") as fh:
            fh.write(b"no zip file\n" * 20)
        with open(os.path.join(tmp, "none-empty.zip"), "wb") as fh:
            pass
        if case["dirname"]:
            # a directory of the file's name is not the file
            try:
                os.makedirs(os.path.join(tmp, "d0", "b.txt"))
            except FileExistsError:
                pass
        old = os.getcwd()
        os.chdir(tmp)
        try:
            paths = [(e[0] if e[2] == "rel" else os.path.join(tmp, e[0])) + e[1] for e in case["entries"]]
            k = min(case["ctor"], len(paths))
            pl = sut.util.PathList(list(paths[:k])) if k else sut.util.PathList()
            for p in paths[k:]:
                pl.add(p)
            eq(list(pl.path), paths, "path list")
            for n in case["reads"]:
                # place z0.zip also sees what lies in its own folders under longer names: not these names
                where = [e[0] for e in case["entries"] if n in case["has"].get(e[0], [])]
                if where:
                    got = no_error(pl.read, "reading %s, which is in %s" % (n, where), n)
                    eq(got, content(where[0], n), "content of %s" % n)
                    rec.label("zip" if zip_split(where[0])[0] else "directory")
                else:
                    expect_error(NameError, pl.read, "reading %s, which is nowhere" % n, n)
                    rec.label("nowhere")
                eq(list(pl.path), paths, "path list after reading")
            used = [i for n in set(case["reads"]) for i, e in enumerate(case["entries"]) if n in case["has"].get(e[0], [])]
            rec.nontrivial(any(i > 0 for i in used))
        finally:
            os.chdir(old)


@st.composite
def long_list_case(draw):
    n = draw(st.sampled_from([8, 12, 20, 33, 64, 130, 300]))
    places = ["%s%d%s" % (draw(st.sampled_from(["p", "q"])), i, s) for i in range(n) for s in [draw(st.sampled_from(["", "", ".zip", ".zip/in"]))]]
    where = sorted(set(draw(st.lists(st.one_of(st.integers(0, n - 1), st.integers(n - 3, n - 1)), max_size=3))))
    depth = draw(st.sampled_from([0, 0, 3, 11, 12, 13, 30, 60]))
    return {"places": places, "has": where, "depth": depth, "inside": draw(st.sampled_from([0, 0, 5, 20])), "again": draw(st.booleans()),
            "size": draw(st.sampled_from([0, 10, 4096, 8193, 70000, 1100000])), "zipped": draw(st.booleans())}


@part("C25", "long", lambda tier: long_list_case(), quick=100,
      rule="lists of up to 300 entries, folders of up to 60 levels, archives with up to 20 levels within, files of up to 1100000 bytes; "
           "non-trivial: found")
def long_list(case, rec):
    with scratch() as tmp:
        top = os.path.join(tmp, *["v%d" % i for i in range(case["depth"])])
        inner = "/".join(["w%d" % i for i in range(case["inside"])])
        pl = sut.util.PathList([os.path.join(top, p) for p in case["places"][:5]])
        full = []
        for p in case["places"]:
            full.append(os.path.join(top, p) + ("/" + inner if inner and p.endswith(".zip") else ""))
        pl = sut.util.PathList(full[:len(full) // 2])
        for p in full[len(full) // 2:]:
            pl.add(p)

        def data(i):
            return (b"%d:%s|" % (i, case["places"][i].encode()) * (1 + case["size"] // 8))[:max(case["size"], 20)]
        for i in case["has"]:
            p = os.path.join(top, case["places"][i])
            zf, _, ins = p.partition(".zip")
            if _:
                os.makedirs(os.path.dirname(zf), exist_ok=True)
                ins = [x for x in (ins.strip("/"), inner if case["places"][i].endswith(".zip") else "") if x]
                with zipfile.ZipFile(zf + ".zip", "w", zipfile.ZIP_DEFLATED if case["zipped"] else zipfile.ZIP_STORED) as z:
                    for k in range(3):
                        z.writestr("other%d" % k, b"x" * k)
                    z.writestr("/".join(ins + ["f.xml"]), data(i))
            else:
                os.makedirs(p, exist_ok=True)
                with open(os.path.join(p, "f.xml"), "wb") as f:
                    f.write(data(i))
        eq(list(pl.path), full, "path list")
        for k in range(2 if case["again"] else 1):
            if case["has"]:
                got = no_error(pl.read, "reading a file of entry %d of %d" % (case["has"][0] + 1, len(full)), "f.xml")
                eq(got == data(case["has"][0]), True, "content of the file of entry %d of %d" % (case["has"][0] + 1, len(full)))
            else:
                expect_error(NameError, pl.read, "reading a file that is nowhere", "f.xml")
            expect_error(NameError, pl.read, "reading another file that is nowhere", "g.xml")
    rec.nontrivial(case["has"])


CHANGING = ["d0", "d1/sub", "z0.zip", "z0.zip/in", "z1.zip", "d1/z2.zip/q"]


@st.composite
def changing_case(draw):
    place, name = st.sampled_from(CHANGING), st.sampled_from(NAMES)
    read = st.tuples(st.just("read"), name, st.integers(0, 1))      # (the file, which of the two path lists)
    put = st.tuples(st.just("put"), place, name)
    op = st.one_of(put, put, read, read, read, st.tuples(st.just("drop"), place, name),
                   st.tuples(st.sampled_from(["gone", "spoilt"]), st.sampled_from(["z0.zip", "z1.zip", "d1/z2.zip"]), st.none()))
    return {"entries": draw(st.lists(place, min_size=1, max_size=5, unique=True)),
            "ops": [list(o) for o in draw(st.lists(op, min_size=4, max_size=16))]}


@part("C25", "changing", lambda tier: changing_case(), quick=400,
      rule="a file is read before and after something changed where it is looked for")
def changing_files(case, rec):
    """Files and archives come, change and go between the reads."""
    with scratch() as tmp:
        state = {}          # place -> {name: content}
        lists = [sut.util.PathList(), sut.util.PathList()]
        order = [list(case["entries"]), list(reversed(case["entries"]))]
        for pl, places in zip(lists, order):
            for p in places:
                pl.add(os.path.join(tmp, p))
        seen, changed, again = set(), False, False

        def rezip(zf):
            full = os.path.join(tmp, zf)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with zipfile.ZipFile(full, "w") as z:
                z.writestr("readme", b"x")
                for p in CHANGING:
                    if zip_split(p)[0] == zf:
                        for n, data in state.get(p, {}).items():
                            z.writestr((zip_split(p)[1] + "/" if zip_split(p)[1] else "") + n, data)

        for k, (op, a, b) in enumerate(case["ops"]):
            if op == "read":
                pl = lists[b]
                where = [p for p in order[b] if a in state.get(p, {})]
                what = "step %d: reading %s" % (k, a)
                if where:
                    eq(no_error(pl.read, "%s, which is in %s" % (what, where), a), state[where[0]][a], what)
                else:
                    expect_error(NameError, pl.read, what + ", which is nowhere (any more)", a)
                again = again or (changed and a in seen)
                seen.add(a)
                rec.label("found" if where else "nowhere")
                continue
            changed = changed or bool(seen)
            rec.label(op)
            if op in ("gone", "spoilt"):
                for p in CHANGING:
                    if zip_split(p)[0] == a:
                        state.pop(p, None)
                full = os.path.join(tmp, a)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                if op == "spoilt":
                    with open(full, "wb") as fh:
                        fh.write(b"PK no more" * 9)
                elif os.path.exists(full):
                    os.unlink(full)
                continue
            if op == "put":
                state.setdefault(a, {})[b] = ("%d: %s in %s" % (k, b, a)).encode()
            else:
                state.get(a, {}).pop(b, None)
            if zip_split(a)[0]:
                rezip(zip_split(a)[0])
                continue
            f = os.path.join(tmp, a, b)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if op == "put":
                with open(f, "wb") as fh:
                    fh.write(state[a][b])
            elif os.path.exists(f):
                os.unlink(f)
        rec.nontrivial(again)
