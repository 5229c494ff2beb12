"""C20 definitions, C21 block layout, C22/C23 PICS, C26 definition lookup, C27 comparison."""
import contextlib, copy, itertools, os, pathlib, zipfile
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
import harness, ref, gen, bench
from harness import part, enumerated, fail, eq, close_to, expect_error, no_error, scratch
from p_codec import all_points, check_read_state, pics_for, states
import sut

ERR = sut.util.SunSpecError


def write_def(d, folder, data=None):
    with open(os.path.join(folder, ref.smdx_name(d["id"])), "wb") as f:
        f.write(ref.smdx_xml(d) if data is None else data)


@contextlib.contextmanager
def definitions(*defs):
    """A scratch directory with the definitions, in effect as the file path list."""
    with scratch() as tmp:
        for d in defs:
            write_def(d, tmp)
        with sut.device.fresh_file_pathlist(tmp):
            yield tmp


# --------------------------------------------------------------------------------------- C20

PHRASE = st.sampled_from(["Watts", "AC Current", "a<b & \"c\"", "\u00b0C \u2013 t\u00e9mp", " padded ", "x", "1", "two\nlines",
                          "Phase A", "0", "None"])
TEXTS = ("label", "description", "notes")
SYM_IDS = ["OFF", "ON", "SLEEPING", "FAULT", "E1", "E2"]


@st.composite
def texts(draw, d, p=3):
    for k in TEXTS:
        if draw(st.integers(0, p)) == 0:
            d[k] = draw(PHRASE)


@st.composite
def large_full_definition(draw):
    """Many points, many symbols, long texts, points far into the block."""
    d = draw(gen.large_definition(mid=draw(st.integers(1, 65000)), far=draw(st.booleans())))
    pts = [p for k in ("fixed", "repeating") for p in (d[k] or {"points": []})["points"]]
    shared = set.intersection(*[{p["id"] for p in (d[k] or {"points": []})["points"]} for k in ("fixed", "repeating")])
    own = [p for p in pts if p["id"] not in shared]
    words = draw(st.lists(PHRASE, min_size=2, max_size=5))
    every = draw(st.integers(1, 5))
    for i, p in enumerate(own):
        if i % every:
            continue
        for j, k in enumerate(TEXTS):
            if (i + j) % 3:
                p[k] = words[(i + j) % len(words)] + " %d" % i
        p["units"] = "u%d" % i
    if own:
        p = draw(st.sampled_from(own))
        n = draw(st.sampled_from([5, 9, 17, 33, 64, 129]))
        p["symbols"] = [{"id": "S%d" % i, "value": str(i), "label": "label %d" % i, "notes": words[i % len(words)]} for i in range(n)]
        p = draw(st.sampled_from(own))
        long = draw(PHRASE) * draw(st.sampled_from([3, 30, 300, 3000]))
        p[draw(st.sampled_from(TEXTS + ("units",)))] = long.strip()
        d[draw(st.sampled_from(TEXTS))] = long
    d["strings"] = True
    return d


@st.composite
def full_definition(draw):
    d = draw(gen.definition(mid=draw(st.one_of(st.integers(1, 70), st.integers(1, 65000)))))
    draw(texts(d, 1))
    if draw(st.integers(0, 5)) == 0:
        d["len"] += draw(st.integers(1, 9))
    if draw(st.integers(0, 9)) == 0:
        d["fixed"] = None
    twins = draw(st.integers(0, 4)) == 0 and d["fixed"] and d["repeating"]
    if d["fixed"] is not None:
        d["fixed"]["typed"] = draw(st.booleans())
        if draw(st.integers(0, 3)) == 0:
            d["fixed"]["name"] = draw(st.sampled_from(gen.REP_NAMES))
    for kind in ("fixed", "repeating"):
        for p in (d[kind] or {"points": []})["points"]:
            draw(texts(p))
            if draw(st.integers(0, 2)) == 0:
                p["units"] = draw(st.sampled_from(["A", "V", "%", "Tms", "\u00b0C", "Secs"]))
            if draw(st.integers(0, 3)) == 0:
                p["access"] = draw(st.sampled_from(["r", "rw"]))
            if draw(st.integers(0, 3)) == 0:
                p["mandatory"] = draw(st.sampled_from(["true", "false"]))
            if draw(st.integers(0, 2)) == 0:
                ids = draw(st.lists(st.sampled_from(SYM_IDS), min_size=1, max_size=4, unique=True))
                p["symbols"] = [{"id": s, "value": draw(st.sampled_from(["0", "1", "2", "31", "65535", None]))} for s in ids]
                for s in p["symbols"]:
                    draw(texts(s, 2))
    if twins:
        # a point of the repeating block with the id of one of the fixed block
        fx = [p for p in d["fixed"]["points"] if ref.is_value_point(p)]
        rp = [p for p in d["repeating"]["points"] if ref.is_value_point(p)]
        if fx and rp:
            a, b = draw(st.sampled_from(fx)), draw(st.sampled_from(rp))
            if a["id"] not in [p["id"] for p in d["repeating"]["points"]]:
                b["id"] = a["id"]
                for p, base in ((a, 1), (b, 5)):
                    for k in TEXTS:
                        p.pop(k, None)
                    p["symbols"] = [{"id": s, "value": str(base + i)} for i, s in enumerate(SYM_IDS[:2])]
    # texts are given by point id alone: a point id used in both blocks has none
    shared = set.intersection(*[{p["id"] for p in (d[k] or {"points": []})["points"]} for k in ("fixed", "repeating")])
    for k in ("fixed", "repeating"):
        for p in (d[k] or {"points": []})["points"]:
            if p["id"] in shared:
                for o in [p] + (p.get("symbols") or []):
                    for t in TEXTS:
                        o.pop(t, None)
    d["strings"] = draw(st.sampled_from([True, True, True, False]))
    d["order"] = draw(st.sampled_from(["", "", "", "r", "s", "rs", "p", "rsp"]))      # the repeating block, the strings first; texts of points backwards
    return d


def with_strings(d):
    """The definition as loaded: without its strings element there are no texts."""
    if d.get("strings", True):
        return d
    d = copy.deepcopy(d)
    for o in [d] + [p for k in ("fixed", "repeating") for p in (d[k] or {"points": []})["points"]]:
        for k in TEXTS:
            o.pop(k, None)
        for s in o.get("symbols") or []:
            for k in TEXTS:
                s.pop(k, None)
    return d


def check_type(mt, d, what=""):
    d = with_strings(d)
    eq(mt.id, d["id"], what + "model id")
    eq(int(mt.len), d["len"], what + "model length")
    eq(mt.name, d["name"] if d["name"] is not None else "model_%d" % d["id"], what + "model name")
    for k in TEXTS:
        eq(getattr(mt, k), d.get(k), what + "model " + k)
    for kind, bt in (("fixed", mt.fixed_block), ("repeating", mt.repeating_block)):
        b = d[kind]
        w = what + kind + " block "
        if b is None:
            if kind == "fixed":
                # a model always has a fixed block, here an empty one
                eq((int(bt.len), list(bt.points_list)), (0, []), w + "of a definition without one")
            else:
                eq(bt, None, w)
            continue
        eq(bt.type, kind, w + "type")
        eq(int(bt.len), b["len"], w + "length")
        eq(bt.name, b["name"] if b.get("name") is not None else kind, w + "name")
        eq([p.id for p in bt.points_list], [p["id"] for p in b["points"]], w + "points in order")
        eq(sorted(bt.points), sorted(p["id"] for p in b["points"]), w + "point ids")
        for pt, p in zip(bt.points_list, b["points"]):
            v = w + "point %s " % p["id"]
            eq(bt.points[p["id"]] is pt, True, v + "reachable by its id")
            eq(pt.offset, p["offset"], v + "offset")
            eq(pt.type, p["type"], v + "type")
            eq(pt.len, ref.pw(p), v + "length")
            eq(pt.access, p.get("access") or "r", v + "access")
            eq(pt.mandatory, p.get("mandatory") or "false", v + "mandatory")
            eq(pt.units, p.get("units"), v + "units")
            eq(pt.sf, p.get("sf"), v + "scale factor")
            for k in TEXTS:
                eq(getattr(pt, k), p.get(k), v + k)
            want = [tuple(s.get(k) for k in ("id", "value") + TEXTS) for s in p.get("symbols") or []]
            got = [(s.id, value_text(s.value), s.label, s.description, s.notes) for s in pt.symbols]
            eq(got, want, v + "symbols")


def value_text(v):
    return v if v is None or v.strip() else None


def like_id(mid, n):
    """Another model id, much like this one."""
    like = [mid + 1, mid * 10, mid * 10 + 7, mid // 10, mid % 10, mid % 100, int("1%d" % mid), mid - 1]
    like = [x for x in like if 0 < x != mid]
    return like[n % len(like)]


def decoys(root, d, n):
    """Things a definition document may hold besides: strings of another model, unknown elements."""
    if n & 1:
        s = ET.Element("strings", {"id": str(like_id(d["id"], n >> 3)), "locale": "en"})
        m = ET.SubElement(s, "model")
        for k in TEXTS:
            ET.SubElement(m, k).text = "other model's"
        for kind in ("fixed", "repeating"):
            for p in (d[kind] or {"points": []})["points"]:
                pe = ET.SubElement(s, "point", {"id": p["id"]})
                ET.SubElement(pe, "label").text = "other model's"
        if n & 2:
            root.append(s)
        else:
            root.insert(1, s)
    if n & 4:
        s = root.find("strings")
        if s is not None:
            pe = ET.SubElement(s, "point", {"id": "NotThere"})
            ET.SubElement(pe, "label").text = "nothing"
    return root


def get_type(how, root, d, tmp, enc="ascii"):
    if how == "element":
        mt = sut.device.ModelType()
        mt.from_smdx(root)
        return mt
    if how == "cwd":
        # the definition lies in the current directory, on no path list
        sub = os.path.join(tmp, "here")
        os.makedirs(sub, exist_ok=True)
        write_def(d, sub, ref.xml_doc(root, enc))
        with in_dir(sub):
            return sut.device.model_type_get(d["id"])
    write_def(d, tmp, ref.xml_doc(root, enc))
    if how == "load":
        m = sut.device.Model(None, d["id"], 40004, 0)
        m.load()
        return m.model_type
    return sut.device.model_type_get(d["id"])


def has_sf_problem(d):
    for kind, i in (("fixed", 0), ("repeating", 1)):
        for p in (d[kind] or {"points": []})["points"]:
            if p.get("sf") and ref.is_value_point(p):
                try:
                    ref.resolve_sf(d, i, d[kind], p)
                except KeyError:
                    return True
    return False


@part("C20", "load", lambda tier: st.fixed_dictionaries(
    {"def": full_definition(), "how": st.sampled_from(["element", "get", "get", "load", "cwd"]), "decoys": st.integers(0, 63),
     "enc": st.sampled_from(ref.ENCODINGS)}),
      quick=700, rule="definition with at least one text, symbol, unit or writable point")
def load_plain(case, rec):
    load_definition(case, rec)


@part("C20", "large", lambda tier: st.fixed_dictionaries(
    {"def": large_full_definition(), "how": st.sampled_from(["element", "get", "load", "cwd"]), "decoys": st.integers(0, 63),
     "enc": st.sampled_from(ref.ENCODINGS)}),
      quick=150, rule="definition of up to 300 points, 129 symbols of one point, texts of some 10000 characters, offsets over 33000; "
                     "non-trivial: texts, symbols or units")
def load_large(case, rec):
    load_definition(case, rec)


def load_definition(case, rec):
    d, how = case["def"], case["how"]
    if how == "load" and (d["fixed"] is None or ref.layout(d, d["len"]) is None or has_sf_problem(d)):
        how = "get"
    rec.label(how, *(["encoding " + case["enc"]] if how != "element" else []))
    with definitions() as tmp:
        mt = no_error(get_type, "loading a well-formed definition", how, decoys(ref.smdx_element(d), d, case["decoys"]), d, tmp,
                      case.get("enc", "ascii"))
        check_type(mt, d)
        if how == "get":
            # once more: the same definition again
            check_type(no_error(sut.device.model_type_get, "loading it again", d["id"]), d, "loaded again: ")
    pts = [p for k in ("fixed", "repeating") for p in (d[k] or {"points": []})["points"]]
    rec.label("repeating" if d["repeating"] else "no repeating", *["type " + p["type"] for p in pts])
    rec.nontrivial(any(p.get(k) for p in pts for k in ("symbols", "units", "access") + TEXTS))


VIOLATIONS = ["dup point", "dup block", "type", "access", "mandatory", "block type", "no point id", "no offset", "no type",
              "no string len", "no block len", "no model len", "no model id", "no symbol id", "bad offset", "bad model len",
              "bad model id", "bad point len", "empty type", "not xml"]


def violate(root, kind, k):
    """Makes one thing in the document wrong. -> False if it has no place for it."""
    m = root.find("model")
    blocks = m.findall("block")
    pts = [(b, p) for b in blocks for p in b.findall("point")]
    if kind in ("no model len", "no model id"):
        del m.attrib[kind[-3:].strip()]
        return True
    if kind in ("bad model len", "bad model id"):
        m.set(kind[-3:].strip(), ["abc", "", "1.5"][k % 3])
        return True
    if not blocks:
        return False
    b = blocks[k % len(blocks)]
    if kind == "dup block":
        m.append(copy.deepcopy(b))
        return True
    if kind == "no block len":
        del b.attrib["len"]
        return True
    if kind == "block type":
        b.set("type", ["other", "", "Fixed"][k % 3])
        return True
    if not pts:
        return False
    b, p = pts[k % len(pts)]
    if kind == "dup point":
        q = copy.deepcopy(p)
        q.set("offset", "300")
        b.append(q)
        if k % 2 == 0 and q.get("type") != "uint16":
            q.set("type", "uint16")
            for a in ("sf", "len"):
                q.attrib.pop(a, None)
    elif kind in ("type", "empty type"):
        p.set("type", ["uint8", "INT16", "str"][k % 3] if kind == "type" else "")
    elif kind == "access":
        p.set("access", ["w", "RW", ""][k % 3])
    elif kind == "mandatory":
        p.set("mandatory", ["yes", "True", ""][k % 3])
    elif kind == "no point id":
        del p.attrib["id"]
    elif kind == "no offset":
        del p.attrib["offset"]
    elif kind == "no type":
        del p.attrib["type"]
    elif kind == "bad offset":
        p.set("offset", ["abc", "1.5", ""][k % 3])
    elif kind == "bad point len":
        p.set("len", ["abc", "1.5", ""][k % 3])
    elif kind == "no string len":
        p.set("type", "string")
        p.attrib.pop("len", None)
    elif kind == "no symbol id":
        ET.SubElement(p, "symbol").text = "1"
    return True


@part("C20", "refused", lambda tier: st.fixed_dictionaries(
    {"def": full_definition(), "kind": st.sampled_from(VIOLATIONS), "k": st.integers(0, 20), "how": st.sampled_from(["get", "load"])}),
      quick=500, rule="the document has a place for the violation")
def refuse_definition(case, rec):
    d, kind = case["def"], case["kind"]
    rec.label(kind)
    with definitions() as tmp:
        root = ref.smdx_element(d)
        ok = True
        if kind == "not xml":
            text = ET.tostring(root)
            text = text[:1 + case["k"] * (len(text) - 2) // 20] if case["k"] % 2 else b"<" + text
            write_def(d, tmp, text)
        else:
            ok = violate(root, kind, case["k"])
            write_def(d, tmp, ET.tostring(root))
        if not ok:
            rec.nontrivial(False)
            return
        if case["how"] == "get":
            expect_error(ERR, sut.device.model_type_get, "definition with a violation (%s)" % kind, d["id"])
        else:
            m = sut.device.Model(None, d["id"], 40004, d["len"])
            expect_error(ERR, m.load, "loading a model whose definition has a violation (%s)" % kind)
        # the good document loads afterwards
        write_def(d, tmp)
        check_type(no_error(sut.device.model_type_get, "loading the good definition afterwards", d["id"]), d, "afterwards: ")


# --------------------------------------------------------------------------------------- C21

@st.composite
def layout_case(draw):
    common = draw(st.integers(0, 5)) == 0
    if common:
        d = draw(gen.definition(mid=1, repeating=False, min_fixed_len=66, fixed_kw={"max_points": 4, "max_str": 8}))
        d["fixed"]["len"] = d["len"] = 66
    else:
        d = draw(gen.definition(mid=draw(st.integers(2, 65000))))
    rep = d["repeating"]["len"] if d["repeating"] else 0
    f = d["fixed"]["len"]
    if draw(st.integers(0, 3)) == 0:
        d["len"] = f + rep * draw(st.integers(0, 4)) + draw(st.sampled_from([0, 0, 1]))
    exact = [f + rep * n for n in (0, 1, 2, 3, 7) + ((10, 11, 40, 101) if rep <= 8 else ())]
    length = draw(st.one_of(st.sampled_from(exact), st.sampled_from(exact + [0, None, f - 1, f + 1, 65, 66, 67]), st.just("top"),
                            st.integers(0, f + 3 * rep + 5)))
    if length == "top":
        # about as long as a length can be said to be
        n = (65535 - f) // rep if rep else 0
        if n * len(d["repeating"]["points"] if rep else []) > 4000 or n > 4000:
            n = 300
        length = f + rep * n if rep else draw(st.sampled_from([65535, 65534, 32768, 60001]))
        length += draw(st.sampled_from([0, 0, 0, 1])) if length < 65535 else 0
    if length is not None and length < 0:
        length = 0
    bad = draw(st.sampled_from([None, None, None, None, None, "nosuch", "other block", "not a factor"]))
    if bad:
        kind = draw(st.sampled_from(["fixed", "repeating"]))
        blk = d[kind] or d["fixed"]
        pts = [p for p in blk["points"] if p["type"] in ref.SCALABLE]
        target = {"nosuch": "NoSuch_SF"}.get(bad)
        if bad == "not a factor" and pts:
            target = pts[0]["id"]
        if bad == "other block" and d["repeating"]:
            blk = d["fixed"]
            pts = [p for p in blk["points"] if p["type"] in ref.SCALABLE]
            own = gen.sf_ids(blk)
            only = [s for s in gen.sf_ids(d["repeating"]) if s not in own]
            target = only[0] if only else None
        if pts and target:
            draw(st.sampled_from(pts))["sf"] = target
    return {"def": d, "len": length, "addr": draw(st.sampled_from([40002, 2, 50002, 40072, 65000, 0])),
            "cls": draw(st.sampled_from(["device", "device", "client"])),
            "before": draw(st.lists(st.sampled_from(["missing", "broken", "other", "same"]), max_size=2))}


@part("C21", "layout", lambda tier: layout_case(), quick=1800,
      rule="the length is neither none, zero nor the definition's own")
def model_layout(case, rec):
    d, length, addr = case["def"], case["len"], case["addr"]
    want = ref.layout(d, length)
    with definitions(d) as tmp:
        def load():
            if case["cls"] == "client":
                m = sut.client.ClientModel(None, d["id"], addr, length)
            else:
                m = sut.device.Model(None, d["id"], addr, length)
            for how in case.get("before", []):
                # earlier attempts: without definition, with another one, or just the same
                rec.label("before: " + how)
                if not m.len and how == "other":
                    continue
                if how == "missing":
                    os.unlink(os.path.join(tmp, ref.smdx_name(d["id"])))
                elif how == "broken":
                    write_def(d, tmp, b"<sunSpecModels")
                elif how == "other":
                    write_def(dict(d, repeating=dict(d["repeating"] or d["fixed"], len=3, points=[
                        {"id": "Q_SF", "type": "sunssf", "offset": 0, "len": 1}, {"id": "Q", "type": "uint32", "offset": 1, "len": 2}])), tmp)
                try:
                    m.load()
                except ERR:
                    pass
                write_def(d, tmp)
            m.load()
            return m
        resolved = True
        for i, o, b in want or []:
            for p in b["points"]:
                if ref.is_value_point(p):
                    try:
                        ref.resolve_sf(d, i, b, p)
                    except KeyError:
                        resolved = False
        rec.nontrivial(length not in (None, 0, d["len"]))
        if want is None:
            rec.label("ends inside a block")
            expect_error(ERR, load, "length %r ending inside a block" % length)
            return
        if not resolved:
            rec.label("unresolved")
            expect_error(ERR, load, "scale factor that does not exist")
            return
        m = no_error(load, "loading a model of length %r" % length)
    eq(m.len, ref.model_length(d, length), "model length")
    eq(m.addr, addr, "model address")
    eq(len(m.blocks), len(want), "number of blocks for length %r" % length)
    rec.label("blocks %s" % min(len(want), 4), "common %s" % length if d["id"] == 1 else "other",
              "default length" if not length else "length given")
    check_blocks(m, d, want, addr)


def layout_grid(tier):
    def points(n, name):
        return [{"id": "%s%d" % (name, k), "offset": k, "type": "uint16"} for k in range(n)]
    for f in range(5):
        for r in range(5):
            d = {"id": 64321, "name": None, "len": f + r, "fixed": {"len": f, "name": None, "points": points(f, "A")},
                 "repeating": {"len": r, "name": None, "points": points(r, "B")} if r else None}
            for own in sorted({f, f + r, f + 2 * r, f + 1}):
                for length in [None] + list(range(0, f + 3 * r + 3)):
                    yield {"def": dict(d, len=own), "len": length, "addr": 40002, "cls": ("device", "client")[length is not None and length % 2], "before": []}
    d = {"id": 1, "name": None, "len": 66, "repeating": None, "fixed": {"len": 66, "name": None, "points": points(66, "A")}}
    for cls in ("device", "client"):
        for length in [None, 0, 1, 63, 64, 65, 66, 67, 68]:
            yield {"def": d, "len": length, "addr": 40002, "cls": cls, "before": []}


@enumerated("C21", "grid", layout_grid,
            rule="fixed and repeating blocks of 0 to 4 registers, definitions that name several lengths, every reported length up to past the "
                 "third block, and the common model; the length is neither none, zero nor the definition's own")
def layout_every(case, rec):
    model_layout(case, rec)


def check_blocks(m, d, want, addr):
    pos = addr
    for (i, o, b), blk in zip(want, m.blocks):
        w = "block %d " % i
        blen = 65 if d["id"] == 1 and m.len == 65 and i == 0 else b["len"]
        eq(int(blk.addr), addr + o, w + "address")
        eq(int(blk.addr), pos, w + "follows the previous block")
        eq(int(blk.len), blen, w + "length")
        pos += blen
        eq(blk.index, i, w + "index")
        eq(blk.type, "fixed" if i == 0 else "repeating", w + "type")
        eq(blk.model is m, True, w + "belongs to the model")
        val = [p for p in b["points"] if ref.is_value_point(p)]
        eq([p.point_type.id for p in blk.points_list], [p["id"] for p in val], w + "points in order")
        eq(sorted(blk.points), sorted(p["id"] for p in val), w + "point ids")
        eq(sorted(blk.points_sf), sorted(gen.sf_ids(b)), w + "scale factors")
        for p in b["points"]:
            if p["type"] == "pad":
                continue
            pt = (blk.points if ref.is_value_point(p) else blk.points_sf)[p["id"]]
            eq(pt.block is blk, True, w + "point %s belongs to the block" % p["id"])
            eq(int(pt.addr), addr + o + p["offset"], w + "address of point %s" % p["id"])
            eq(pt.value_base, None, w + "point %s starts without value" % p["id"])
    eq(m.points_list, m.blocks[0].points_list, "points of the model")
    eq(m.points, m.blocks[0].points, "points of the model by id")
    eq(m.points_sf, m.blocks[0].points_sf, "scale factors of the model")


# ------------------------------------------------------------------------------- PICS writing

def with_symbols(draw, case):
    for d in case["defs"]:
        for k in ("fixed", "repeating"):
            for p in (d[k] or {"points": []})["points"]:
                if draw(st.integers(0, 5)) == 0:
                    p["symbols"] = [{"id": "OFF", "value": "1"}, {"id": "ON", "value": "2"}]
                    p["symbols"] += [{"id": "X%d" % i, "value": str(i)} for i in range(3, draw(st.sampled_from([3, 3, 3, 4, 8, 20, 40])))]
    return case


def find_def(case, m):
    for d in case["defs"]:
        if d["id"] == m["id"]:
            return d
    return None


def pics_root(device, extra=False):
    root = ET.Element("sunSpecPics", {"v": "1"})
    if extra:
        ET.SubElement(root, "date").text = "2014-01-01"
        ET.SubElement(root, "manufacturer").text = "Acme"
    root.append(device)
    return root


def pics_device(case, base=None):
    """PICS device element of the case's models (independent writer)."""
    de = ET.Element("device", {} if base is None else {"addr": str(base)})
    seen = {}
    for m in case["models"]:
        d = find_def(case, m)
        if d is None:
            me = ET.Element("model", {"id": str(m["id"]), "len": str(m["len"])})
        else:
            me = pics_for(d, m["len"], bytes.fromhex(m["data"]))
        seen[m["id"]] = seen.get(m["id"], 0) + 1
        if seen[m["id"]] > 1:
            me.set("index", str(seen[m["id"]]))
        de.append(me)
    return de


def addresses(case, base):
    """Address of the first register of each model, lengths as written in the case."""
    out, pos = [], base + 2
    for m in case["models"]:
        out.append(pos + 2)
        d = find_def(case, m)
        n = m["len"] if m["len"] is not None else 0
        pos += 2 + (ref.model_length(d, n) if d else n)
    return out


def build_device(case, how, b):
    """A device of the code under test holding the case's models and values."""
    if how == "read":
        cd = b.open()
        cd.scan()
        for m in cd.models_list:
            if not m.load_error:
                m.read_points()
        return cd
    dev = sut.device.Device()
    if how == "pics":
        dev.from_pics(element=pics_device(case))
        return dev
    seen = {}
    for m, a in zip(case["models"], addresses(case, 40000)):
        seen[m["id"]] = seen.get(m["id"], 0) + 1
        mod = sut.device.Model(dev, m["id"], a, m["len"], seen[m["id"]])
        d = find_def(case, m)
        if d is None:
            expect_error(ERR, mod.load, "loading an unknown model")
            mod.load_error = "unknown"
        else:
            mod.load()
            vals, sfs = ref.read_values(d, m["len"], bytes.fromhex(m["data"]))
            for blk in mod.blocks:
                for pid, p in blk.points_sf.items():
                    p.value_base = sfs[(blk.index, pid)]
                for pid, p in blk.points.items():
                    raw, sf = vals[(blk.index, pid)]
                    p.value_base = raw
                    p.value_sf = sf if raw is not None else None
        dev.add_model(mod)
    return dev


def free_points(dev):
    """[(key, point, another value)] of the integer points with a value and without scale factor."""
    out = []
    for key, p in sorted(all_points(dev).items()):
        t = p.point_type.type
        v = p.value_base
        if t in ref.INT_TYPES and t != "sunssf" and type(v) is int and not p.value_sf:
            w = v ^ 1 if (v ^ 1) % (1 << 16 * ref.NAT[t][0]) != ref.MARKER[t] else v ^ 3
            out.append((key, p, w))
    return out


def check_device(dev, case, what, base=None):
    eq([(m.id, m.len) for m in dev.models_list],
       [(m["id"], ref.model_length(find_def(case, m), m["len"]) if find_def(case, m) else m["len"]) for m in case["models"]],
       what + "models")
    seen = {}
    for mod, m in zip(dev.models_list, case["models"]):
        seen[m["id"]] = seen.get(m["id"], 0) + 1
        eq(mod.index, seen[m["id"]], what + "instance index of model %d" % m["id"])
        d = find_def(case, m)
        if d is None:
            eq(bool(mod.load_error), True, what + "unknown model has a load error")
        else:
            eq(mod.load_error, None, what + "load error of model %d" % m["id"])
            check_read_state(mod, d, m["len"], bytes.fromhex(m["data"]), what)
    eq({k: [id(m) for m in v] for k, v in dev.models.items()},
       {i: [id(m) for m in dev.models_list if m.id == i] for i in seen}, what + "models by id")
    if base is not None:
        eq([m.addr for m in dev.models_list], addresses(case, base), what + "model addresses")


def impl_status(dev, what):
    for m in dev.models_list:
        for blk in m.blocks:
            for p in list(blk.points.values()) + list(blk.points_sf.values()):
                eq(bool(p.impl), p.value_base is not None, what + "implemented status of %s" % p.point_type.id)


# --------------------------------------------------------------------------------------- C22

@st.composite
def pics_case(draw, **kw):
    c = draw(bench.device_case(transports=["mapped"], bases=[40000], xmlsafe=True, max_models=4, many=True, **kw))
    return with_symbols(draw, c)


def first_block_everywhere(case):
    """The case with the contents of the first repeating block in all repeating blocks."""
    case = copy.deepcopy(case)
    for m in case["models"]:
        d = find_def(case, m)
        if d is None or not d["repeating"]:
            continue
        data = bytearray(bytes.fromhex(m["data"]))
        lay = ref.layout(d, m["len"])
        for i, o, b in lay[2:]:
            n = b["len"]
            o1 = lay[1][1]
            data[2 * o:2 * (o + n)] = data[2 * o1:2 * (o1 + n)]
        m["data"] = bytes(data).hex()
    return case


def check_pics_element(e, case, single):
    eq(e.tag, "device", "element written")
    models = list(e)
    eq([(x.tag, x.get("id")) for x in models], [("model", str(m["id"])) for m in case["models"]], "model elements")
    for me, m in zip(models, case["models"]):
        d = find_def(case, m)
        if d is None:
            continue
        lay = ref.layout(d, m["len"])
        if single:
            lay = lay[:2]
        blocks = list(me)
        eq([(x.tag, x.get("type", "fixed"), x.get("index", "1")) for x in blocks],
           [("block", "fixed" if i == 0 else "repeating", str(max(i, 1))) for i, o, b in lay],
           "block elements of model %d (single_repeating=%s)" % (m["id"], single))
        data = bytes.fromhex(m["data"])
        for be, (i, o, b) in zip(blocks, lay):
            pts = [p for p in b["points"] if p["type"] != "pad"]
            eq([(x.tag, x.get("id")) for x in be], [("point", p["id"]) for p in pts], "point elements of block %d" % i)
            for pe, p in zip(be, pts):
                a = 2 * (o + p["offset"])
                raw = ref.decode(p["type"], data[a:a + 2 * ref.pw(p)])
                w = "point element %s of block %d: " % (p["id"], i)
                eq(pe.get("impl", "true"), "false" if raw is None else "true", w + "impl")
                if raw is not None:
                    eq(pe.get("access", "r"), p.get("access") or "r", w + "access")


@st.composite
def large_pics_case(draw, **kw):
    c = draw(bench.large_case(transports=["mapped"], bases=[40000], xmlsafe=True, **kw))
    return with_symbols(draw, c)


@part("C22", "large", lambda tier: st.fixed_dictionaries(
    {"dev": large_pics_case(), "how": st.sampled_from(["read", "pics", "api"]), "single": st.sampled_from([False, False, True]),
     "via": st.sampled_from(["element", "text", "file"]), "pretty": st.booleans()}), quick=120,
      rule="devices of up to 50 models, models of up to 300 points; non-trivial as for roundtrip")
def pics_large(case, rec):
    pics_roundtrip(case, rec)


@part("C22", "roundtrip", lambda tier: st.fixed_dictionaries(
    {"dev": pics_case(), "how": st.sampled_from(["read", "pics", "api"]), "single": st.sampled_from([False, False, True]),
     "via": st.sampled_from(["element", "text", "file"]), "pretty": st.booleans()}), quick=700,
      rule="a device with at least one implemented and one unimplemented point or a repeating block")
def pics_roundtrip(case, rec):
    c, how, single = case["dev"], case["how"], case["single"]
    rec.label(how, "single" if single else "all", case["via"])
    with bench.bench(c) as b:
        dev = no_error(build_device, "building a device", c, how, b)
        check_device(dev, c, "device: ")
        before = states(dev)
        root = ET.Element("sunSpecPics")
        if single and case["pretty"]:
            no_error(dev.to_pics, "to_pics", root)              # single block output is the default
        else:
            no_error(dev.to_pics, "to_pics", root, single_repeating=single)
        eq(states(dev), before, "points of the device after to_pics")
        eq(len(root), 1, "elements written")
        if case["pretty"]:
            no_error(sut.util.indent, "indent", root)
        check_pics_element(root[0], c, single)
        again = sut.device.Device()
        if case["via"] == "element":
            no_error(again.from_pics, "loading what to_pics wrote", element=root[0])
        else:
            text = ET.tostring(root)
            if case["via"] == "text":
                no_error(again.from_pics, "loading what to_pics wrote", element=ET.fromstring(text)[0])
            else:
                with open(os.path.join(b.tmp, "dev.pics"), "wb") as f:
                    f.write(text)
                no_error(again.from_pics, "loading what to_pics wrote", filename=os.path.join(b.tmp, "dev.pics"))
        want = first_block_everywhere(c) if single else c
        check_device(again, want, "reloaded device: ")
        impl_status(again, "reloaded device: ")
        if want["models"] == c["models"]:
            for x, y in ((dev, again), (again, dev)):
                eq(no_error(x.not_equal, "not_equal", y), False, "comparison of the device and the reloaded one")
        else:
            rec.label("blocks replaced")
        # written again with other values
        free = free_points(dev)
        for key, p, v in free[::1 + len(free) // 3]:
            p.value = v
            rec.label("written again with other values")
        now = {k: v[:2] for k, v in states(dev).items()}
        for s in (False, True):
            root2 = ET.Element("sunSpecPics")
            no_error(dev.to_pics, "to_pics of the changed device", root2, single_repeating=s)
            more = sut.device.Device()
            no_error(more.from_pics, "loading what to_pics wrote of the changed device", element=root2[0])
            got = {k: v[:2] for k, v in states(more).items()}
            eq(sorted(got), sorted(now), "points of the changed device reloaded")
            for k, v in got.items():
                first = (k[0], min(k[1], 1) if s else k[1], k[2])
                if v[0] != now[first][0] or (v[1] or 0) != (now[first][1] or 0):
                    fail("point %s of the changed device reloaded (single_repeating=%s) is %r, expected %r", k, s, v, now[first])
    flat = [p.value_base is not None for m in again.models_list for blk in m.blocks for p in blk.points_list]
    rec.label("models %d" % len(c["models"]), *(["several of a kind"] if any(m.index > 1 for m in again.models_list) else []))
    rec.nontrivial((True in flat and False in flat) or any(len(m.blocks) > 1 for m in again.models_list))


# --------------------------------------------------------------------------------------- C23

@st.composite
def spelled(draw, p):
    """-> (text, raw value or None) of a listed point."""
    t = p["type"]
    if t == "string":
        s = draw(st.one_of(st.text(st.sampled_from(gen.PLAIN + "   \u00e9\u00fc\u00b0"), min_size=1, max_size=2 * ref.pw(p)), st.sampled_from([" ", "  "])))
        return s, s
    if t == "eui48":
        b = draw(st.one_of(st.binary(min_size=6, max_size=6).filter(any), st.just(b"\xff" * 6)))
        s = ":".join("%02X" % x for x in b)
        return s, (None if b == b"\xff" * 6 else s)
    if t == "ipv6addr":
        s = ":".join("%08X" % draw(st.integers(0, 0xffffffff)) for _ in range(3)) + ":0000000%d" % draw(st.integers(1, 9))
        return s, s
    if t == "float32":
        v = ref.f32(draw(st.floats(-1e6, 1e6, width=32)))
        return draw(st.sampled_from(["%r", " %r ", "%r\n"])) % v, v
    lo, hi = ref.int_range(t)
    if t == "sunssf":
        lo, hi = -10, 10
    v = draw(st.one_of(st.integers(lo, hi), st.integers(max(lo, -500), min(hi, 500)), st.sampled_from([lo, hi])))
    if t != "sunssf" and draw(st.integers(0, 5)) == 0:
        m = ref.MARKER[t]
        v = m - (hi + 1) * 2 if lo < 0 else m
    form = draw(st.sampled_from(["%d", "%d", "0x%x", "0X%X", " %d ", "\n%d\t"]))
    text = form % abs(v)
    if v < 0:
        text = text.replace("0x", "-0x").replace("0X", "-0X") if "0" in form else text.replace("%d" % -v, "%d" % v)
    is_marker = (v % (1 << (16 * ref.NAT[t][0]))) == ref.MARKER[t]
    return text, None if is_marker else v


@st.composite
def listed_points(draw, b):
    out = []
    for p in b["points"]:
        if p["type"] == "pad":
            continue
        mode = draw(st.integers(0, 9))
        if mode == 0:
            continue
        if mode == 1:
            out.append([p["id"], {"impl": "false"}, draw(st.sampled_from([None, "1"])), None])
        else:
            text, v = draw(spelled(p))
            out.append([p["id"], {"impl": "true"} if mode == 2 else {}, text, v])
    if draw(st.integers(0, 7)) == 0:
        out.append(["NotThere", {}, "1", None])
    if draw(st.integers(0, 3)) == 0:
        out.reverse()
    return out


@st.composite
def large_load_case(draw):
    """Many models, or many listed points, or many mentions of blocks."""
    c = draw(load_case())
    d = draw(gen.large_definition(mid=299, max_points=60, max_str=draw(st.sampled_from([6, 6, 60]))))
    c["defs"].append(d)
    f, rep = d["fixed"]["len"], (d["repeating"] or {"len": 0})["len"]
    n = draw(st.integers(0, 3)) if rep else 0
    blocks = [["fixed", None, draw(listed_points(d["fixed"]))]]
    if n:
        blocks.append(["repeating", draw(st.sampled_from([None, n, 1])), draw(listed_points(d["repeating"]))])
    one = {"kind": "known", "id": 299, "len": f + rep * n, "index": None, "blocks": blocks}
    c["models"].insert(draw(st.integers(0, len(c["models"]))), one)
    first = [m for m in c["models"] if (m["len"] or 0) < 400]
    for k in range(draw(st.sampled_from([0, 3, 8, 20, 40])) if first else 0):
        c["models"].append(first[k * 5 % len(first)])
    return c


@st.composite
def load_case(draw):
    ndefs = draw(st.integers(1, 2))
    defs = [draw(gen.definition(mid=300 + i)) for i in range(ndefs)]
    models = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["known"] * 6 + ["unknown", "ill"]))
        idx = draw(st.sampled_from([None, None, 1, 2, 7]))
        if kind == "unknown":
            models.append({"kind": kind, "id": 60001, "len": draw(st.sampled_from([None, 0, 5, 60, 12345, 60000])), "index": idx,
                           "blocks": draw(st.sampled_from([[], [["fixed", None, []]], [["fixed", None, []], ["repeating", None, []]],
                                                           [["fixed", None, [["A", {}, "1", None]]], ["repeating", 1, []], ["repeating", 2, []]]]))})
            continue
        d = draw(st.sampled_from(defs))
        f, rep = d["fixed"]["len"], (d["repeating"] or {"len": 0})["len"]
        if kind == "ill":
            n = f + rep + 1 if rep > 1 else f - 1
            if n < 1:
                kind = "known"
            else:
                models.append({"kind": kind, "id": d["id"], "len": n, "index": idx,
                               "blocks": [["fixed", None, []], ["repeating", 3, []]] if draw(st.booleans()) and rep > 1 else [["fixed", None, []]]})
                continue
        n = draw(st.one_of(st.none(), st.integers(0, 4), st.sampled_from([3, 4, 10, 12, 101])))
        if n is not None and n > 4 and rep > 8:
            n = 4
        length = None if n is None else f + rep * n
        if length and not rep and draw(st.integers(0, 4)) == 0:
            length += draw(st.sampled_from([1, 7, 999, 10000, 50000]))      # more registers than the definition knows
        lay = ref.layout(d, length)
        blocks = []
        if draw(st.integers(0, 9)):
            blocks.append(["fixed", None, draw(listed_points(d["fixed"]))])
        if d["repeating"]:
            top = len(lay) - 1
            for _ in range(draw(st.integers(0, 3))):
                i = draw(st.one_of(st.none(), st.integers(1, top), st.just(top))) if top else None
                blocks.append(["repeating", i, draw(listed_points(d["repeating"]))])
        if blocks and blocks[0][0] == "fixed" and draw(st.integers(0, 3)) == 0:
            blocks.append(blocks.pop(0))                # the fixed block is listed last
        models.append({"kind": kind, "id": d["id"], "len": length, "index": idx, "blocks": blocks})
    return {"defs": defs, "models": models, "addr": draw(st.sampled_from([None, None, 40000, 0, 50000, 123])),
            "how": draw(st.sampled_from(["element", "file", "pathlist", "global", "cwd"])), "typed": draw(st.booleans()),
            "enc": draw(st.sampled_from(ref.ENCODINGS))}


def pics_doc(case):
    de = ET.Element("device", {} if case["addr"] is None else {"addr": str(case["addr"])})
    for m in case["models"]:
        me = ET.SubElement(de, "model", {"id": str(m["id"])})
        for k in ("len", "index"):
            if m[k] is not None:
                me.set(k, str(m[k]))
        for t, i, pts in m["blocks"]:
            be = ET.SubElement(me, "block")
            if t != "fixed" or case["typed"]:
                be.set("type", t)
            if i is not None:
                be.set("index", str(i))
            for pid, attr, text, v in pts:
                ET.SubElement(be, "point", dict(attr, id=pid)).text = text
    return de


@contextlib.contextmanager
def in_dir(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def load_pics(dev, how, de, tmp, enc="ascii"):
    if how == "element":
        return dev.from_pics(element=de)
    sub = os.path.join(tmp, "docs")
    os.makedirs(sub, exist_ok=True)
    with open(os.path.join(sub, "d.xml"), "wb") as f:
        f.write(ref.xml_doc(pics_root(de, extra=True), enc))
    if how == "file":
        return dev.from_pics(filename=os.path.join(sub, "d.xml"))
    if how == "pathlist":
        return dev.from_pics(filename="d.xml", pathlist=sut.util.PathList([os.path.join(tmp, "none"), sub]))
    if how == "global":
        sut.device.file_pathlist.add(sub)
        return dev.from_pics(filename="d.xml")
    with in_dir(sub):
        return dev.from_pics(filename="d.xml")


@part("C23", "load", lambda tier: load_case(), quick=600, rule="at least one listed point with a value")
def load_usual(case, rec):
    load_document(case, rec)


@part("C23", "large", lambda tier: large_load_case(), quick=80,
      rule="documents of up to 44 models, of a model of up to 60 + 60 points; non-trivial: at least one listed point with a value")
def load_large_document(case, rec):
    load_document(case, rec)


def load_document(case, rec):
    rec.label(case["how"])
    n = 0
    with definitions(*case["defs"]) as tmp:
        dev = sut.device.Device()
        no_error(load_pics, "loading a well-formed PICS document", dev, case["how"], pics_doc(case), tmp, case.get("enc", "ascii"))
    base = 40000 if case["addr"] is None else case["addr"]
    eq(dev.base_addr, base, "base address")
    eq([m.id for m in dev.models_list], [m["id"] for m in case["models"]], "models")
    pos = base + 2
    for mod, m in zip(dev.models_list, case["models"]):
        d = find_def(case, m)
        w = "model %d: " % m["id"]
        length = m["len"] or (d["len"] if d else 0)
        eq(mod.addr, pos + 2, w + "address")
        eq(mod.len, length, w + "length")
        eq(mod.index, m["index"] or 1, w + "index")
        pos += 2 + length
        rec.label(m["kind"])
        eq(bool(mod.load_error), m["kind"] != "known", w + "load error")
        if m["kind"] != "known":
            continue
        lay = ref.layout(d, m["len"])
        eq(len(mod.blocks), len(lay), w + "blocks")
        val = {}
        for t, idx, pts in m["blocks"]:
            for i, o, b in lay:
                if (t == "fixed") != (i == 0) or (idx is not None and i != idx):
                    continue
                for pid, attr, text, v in pts:
                    val[(i, pid)] = (v, attr.get("impl") != "false" and v is not None)
            rec.label("%s %s" % (t, "all" if idx is None else "indexed"))
        for i, o, b in lay:
            blk = mod.blocks[i]
            # values in effect of scale factors: those of the last mention of a block
            for p in b["points"]:
                if p["type"] == "pad":
                    continue
                pt = (blk.points if ref.is_value_point(p) else blk.points_sf)[p["id"]]
                raw, impl = val.get((i, p["id"]), (None, True))
                v = w + "point %s (%s) of block %d: " % (p["id"], p["type"], i)
                eq(pt.value_base, raw, v + "raw value")
                eq(bool(pt.impl), impl, v + "implemented")
                if not ref.is_value_point(p):
                    continue
                r = ref.resolve_sf(d, i, b, p)
                sf = None
                if r is not None:
                    sf = r[1] if r[0] == "const" else val.get((r[1], r[2]["id"]), (None,))[0]
                if raw is None:
                    eq(pt.value, None, v + "value")
                else:
                    n += 1
                    close_to(pt.value, ref.scaled(raw, sf), v + "value (scale factor %r)" % sf)
                    if sf:
                        rec.label("scaled")
    rec.nontrivial(n > 0)


ORDERED = {"id": 300, "name": None, "len": 4,
           "fixed": {"len": 4, "name": None, "points": [
               {"id": "A", "offset": 0, "type": "int16", "sf": "F_SF"}, {"id": "F_SF", "offset": 1, "type": "sunssf"},
               {"id": "G_SF", "offset": 2, "type": "sunssf"}, {"id": "B", "offset": 3, "type": "uint16", "sf": "G_SF"}]},
           "repeating": {"len": 5, "name": None, "points": [
               {"id": "C", "offset": 0, "type": "int16", "sf": "F_SF"}, {"id": "D", "offset": 1, "type": "uint16", "sf": "L_SF"},
               {"id": "L_SF", "offset": 2, "type": "sunssf"}, {"id": "E", "offset": 3, "type": "int16", "sf": "-2"},
               {"id": "G", "offset": 4, "type": "uint16", "sf": "G_SF"}]}}


def order_cases(tier):
    """Blocks and points listed in every order."""
    fixed = [[["A", {}, "12", 12], ["F_SF", {}, "-1", -1], ["G_SF", {}, "2", 2], ["B", {}, "7", 7]], [["F_SF", {}, "3", 3], ["A", {}, "5", 5]]]
    rep = [[["C", {}, "21", 21], ["D", {}, "34", 34], ["L_SF", {}, "1", 1], ["E", {}, "-55", -55], ["G", {}, "9", 9]],
           [["C", {}, "4", 4], ["L_SF", {}, "-3", -3]]]
    kinds = [["fixed", None, fixed[0]], ["repeating", None, rep[0]], ["repeating", 1, rep[0]], ["repeating", 2, rep[1]], ["fixed", None, fixed[1]]]
    for k in range(1, 5):
        for blocks in itertools.permutations(kinds, k):
            for back in (False, True):
                yield {"defs": [ORDERED], "addr": None, "how": "element", "typed": True,
                       "models": [{"kind": "known", "id": 300, "len": 4 + 5 * 2, "index": None,
                                   "blocks": [[t, i, pts[::-1] if back else pts] for t, i, pts in blocks]}]}


@enumerated("C23", "orders", order_cases,
            rule="documents that list up to four of: the fixed block, parts of it, all repeating blocks, one, parts of another; in every order; every case")
def load_orders(case, rec):
    load_document(case, rec)


BAD_PICS = ["root", "no device", "device tag", "model tag", "block tag", "point tag", "no id", "block type", "index high",
            "index next", "index zero", "index negative", "bad index", "bad len", "bad id", "bad addr", "bad value", "xml",
            "missing"]


@part("C23", "refused", lambda tier: st.fixed_dictionaries(
    {"doc": load_case(), "kind": st.sampled_from(BAD_PICS), "k": st.integers(0, 20)}), quick=450,
      rule="the document has a place for the violation")
def refuse_document(case, rec):
    c, kind, k = case["doc"], case["kind"], case["k"]
    rec.label(kind)
    how = c["how"]
    de = pics_doc(c)
    models = list(de)
    known = [i for i, m in enumerate(c["models"]) if m["kind"] == "known"]
    me = models[k % len(models)]
    kme = models[known[k % len(known)]] if known else None
    km = c["models"][known[k % len(known)]] if known else None
    rec.nontrivial(True)
    doc = None
    ok = True
    if kind == "root":
        doc = pics_root(de)
        doc.tag = ["other", "sunSpecModels", "device"][k % 3]
    elif kind == "no device":
        doc = ET.Element("sunSpecPics")
        if k % 2:
            ET.SubElement(doc, "model", {"id": "1"})
    elif kind == "device tag":
        de.tag = "model"
        how = "element"
    elif kind == "model tag":
        de.insert(k % (len(models) + 1), ET.Element(["block", "point", "Model"][k % 3], {"id": "300"}))
    elif kind == "block tag":
        me.insert(0, ET.Element(["point", "model", "Block"][k % 3], {"id": "A"}))
    elif kind == "no id":
        del me.attrib["id"]
    elif kind == "bad id":
        me.set("id", ["abc", "", "1.5"][k % 3])
    elif kind == "bad len":
        me.set("len", ["abc", "1.5", "0x5"][k % 3])
    elif kind == "bad addr":
        de.set("addr", ["abc", "", "4e4"][k % 3])
    elif kind == "xml":
        doc = ET.tostring(pics_root(de))
        doc = doc[:-1 - k]
    elif kind == "missing":
        pass
    elif km is None:
        ok = False
    elif kind == "point tag":
        b = ET.SubElement(kme, "block")
        b.append(ET.Element(["block", "model", "Point"][k % 3], {"id": "A"}))
    elif kind == "block type":
        ET.SubElement(kme, "block", {"type": ["other", "", "Fixed"][k % 3]})
    elif kind.startswith("index") or kind == "bad index":
        top = len(ref.layout(find_def(c, km), km["len"])) - 1
        i = {"index high": top + 2 + k, "index next": top + 1, "index zero": 0, "index negative": -1 - k % 3,
             "bad index": ["abc", "", "1.5"][k % 3]}[kind]
        ET.SubElement(kme, "block", {"type": "repeating", "index": str(i)})
    elif kind == "bad value":
        d = find_def(c, km)
        pts = [p for p in d["fixed"]["points"] if p["type"] in ref.SCALABLE]
        if pts:
            b = ET.SubElement(kme, "block")
            ET.SubElement(b, "point", {"id": pts[k % len(pts)]["id"]}).text = ["abc", "1.5", "0x"][k % 3]
        else:
            ok = False
    if not ok:
        rec.nontrivial(False)
        return
    with definitions(*c["defs"]) as tmp:
        dev = sut.device.Device()
        if kind == "missing":
            expect_error(ERR, dev.from_pics, kind, filename=os.path.join(tmp, "nothere.xml"))
            expect_error(ERR, dev.from_pics, kind, filename="nothere.xml", pathlist=sut.util.PathList([tmp]))
            return
        if doc is not None:
            with open(os.path.join(tmp, "d.xml"), "wb") as f:
                f.write(doc if isinstance(doc, bytes) else ET.tostring(doc))
            expect_error(ERR, dev.from_pics, "document with a violation (%s)" % kind, filename=os.path.join(tmp, "d.xml"))
        else:
            expect_error(ERR, load_pics, "document with a violation (%s)" % kind, dev, how, de, tmp)
        good = sut.device.Device()
        no_error(load_pics, "loading the good document afterwards", good, "element", pics_doc(c), tmp)
        eq(len(good.models_list), len(c["models"]), "models of the good document loaded afterwards")


@enumerated("C23", "sources", lambda tier: [
    {"arg": a, "global": g, "cwd": w} for a in (None, "has", "lacks") for g in (None, "has", "lacks") for w in (True, False)],
    rule="every combination of supplied path list, global path list and current directory")
def sources(case, rec):
    """The document is taken from the supplied path list, then the global one, then the file system."""
    with scratch() as tmp:
        def place(name, addr):
            d = os.path.join(tmp, name)
            os.mkdir(d)
            if addr is not None:
                with open(os.path.join(d, "d.xml"), "wb") as f:
                    f.write(ET.tostring(pics_root(ET.Element("device", {"addr": str(addr)}))))
            return d
        a = place("arg", 100 if case["arg"] == "has" else None)
        g = place("glob", 200 if case["global"] == "has" else None)
        w = place("cwd", 300 if case["cwd"] else None)
        want = 100 if case["arg"] == "has" else 200 if case["global"] == "has" else 300 if case["cwd"] else None
        pl = None if case["arg"] is None else sut.util.PathList([a])
        sut.device.file_pathlist = None if case["global"] is None else sut.util.PathList([g])
        dev = sut.device.Device()
        with in_dir(w):
            if want is None:
                expect_error(ERR, dev.from_pics, "document that is nowhere", filename="d.xml", pathlist=pl)
            else:
                no_error(dev.from_pics, "loading a document", filename="d.xml", pathlist=pl)
                eq(dev.base_addr, want, "base address of the document loaded")


# --------------------------------------------------------------------------------------- C27

def scaled_by(case, mi, key):
    d = find_def(case, case["models"][mi])
    return d


UNITS = "kWh"
VALUE_DIFFS = ("value", "value string", "value string case", "value float", "value none")
DIFFS = ["none", "none", "model count", "block count", "value", "value", "value string", "value string case", "value float", "value none", "factor", "factor", "factor none", "factor none", "def id", "def len", "block len",
         "point type", "point type", "point offset", "point len", "access", "mandatory", "unknown id", "undefined", "extra point", "no repeating",
         "no repeating", "symbol value", "symbol value", "symbol id", "symbol count", "units"]
SAME_WIDTH = {"int16": "uint16", "uint16": "int16", "acc16": "uint16", "enum16": "bitfield16", "bitfield16": "enum16",
              "count": "uint16", "int32": "uint32", "uint32": "acc32", "acc32": "uint32", "enum32": "bitfield32",
              "bitfield32": "enum32", "ipaddr": "uint32", "int64": "uint64", "uint64": "acc64", "acc64": "uint64"}


def free_id(case, mid):
    while mid in [d["id"] for d in case["defs"]] + [m["id"] for m in case["models"]]:
        mid += 1
    return mid


def make_difference(case, kind, k):
    """-> the changed case, or None if there is no place for this difference"""
    c = copy.deepcopy(case)
    known = [i for i, m in enumerate(c["models"]) if find_def(c, m)]
    if kind == "model count":
        if k % 2 and len(c["models"]) > 1:
            c["models"].pop(k % len(c["models"]))
        else:
            c["models"].append(copy.deepcopy(c["models"][k % len(c["models"])]))
        return c
    if kind == "unknown id":
        u = [m for m in c["models"] if not find_def(c, m)]
        if not u:
            return None
        u[k % len(u)]["id"] = free_id(c, 60003)
        return c
    if not known:
        return None
    m = c["models"][known[k % len(known)]]
    d = find_def(c, m)
    data = bytearray(bytes.fromhex(m["data"]))
    pts = [(i, o, p) for i, o, p in gen.model_points(d, m["len"])]
    if kind == "block count":
        if not d["repeating"]:
            return None
        m["len"] += d["repeating"]["len"]
        m["data"] += "00" * 2 * d["repeating"]["len"]
        return c
    if kind in VALUE_DIFFS:
        vp = [(i, o, p) for i, o, p in pts if ref.is_value_point(p)]
        if kind in ("value string", "value string case", "value float"):
            vp = [x for x in vp if x[2]["type"] == ("float32" if kind == "value float" else "string")]
        vals, _ = ref.read_values(d, m["len"], bytes(data))
        for j in range(len(vp)):
            i, o, p = vp[(k + j) % len(vp)]
            raw = vals[(i, p["id"])][0]
            w = 2 * ref.pw(p)
            if kind == "value none":
                if raw is None:
                    continue
                data[2 * o:2 * o + w] = ref.marker_bytes(p["type"], ref.pw(p))
            elif p["type"] == "string":
                # another first or last character, the other case, one character less or more
                s = raw or "Z"
                alt = [("Z" if s[0] != "Z" else "Y") + s[1:], s[:-1] + ("z" if s[-1] != "z" else "y"), s[0].swapcase() + s[1:], s[:-1], s + " ", "Z"]
                if kind == "value string case":
                    alt = [s[0].swapcase() + s[1:], s[:-1] + s[-1].swapcase(), s.swapcase()]
                alt = [x for x in alt if x and x != raw and len(x) <= w and max(x) < "\x80"]
                if not alt and kind == "value string case":
                    continue
                if not alt:
                    alt = ["Z" if raw != "Z" else "Y"]
                data[2 * o:2 * o + w] = ref.encode("string", alt[k // 7 % len(alt)], w // 2)
            elif p["type"] == "float32":
                near = ref.f32_next(raw) if raw is not None and k % 3 else None
                if near is None:
                    near = 12.5 if raw != 12.5 else 13.5
                data[2 * o:2 * o + w] = ref.encode("float32", near)
            else:
                # the least significant bit
                data[2 * o + w - 1] ^= 1
                if ref.decode(p["type"], bytes(data[2 * o:2 * o + w])) == raw:
                    continue
            m["data"] = bytes(data).hex()
            return c
        return None
    if kind in ("factor", "factor none"):
        sfp = [x for x in pts if x[2]["type"] == "sunssf"]
        for i, o, p in sfp[k % (len(sfp) or 1):] + sfp[:k % (len(sfp) or 1)]:
            old, _ = ref.read_values(d, m["len"], bytes(data))
            cur = ref.decode("sunssf", bytes(data[2 * o:2 * o + 2]))
            if kind == "factor":
                data[2 * o:2 * o + 2] = ref.encode("sunssf", (cur or 0) + (1 if (cur or 0) < 10 else -1))
            elif cur is None:
                data[2 * o:2 * o + 2] = ref.encode("sunssf", [-3, 1, 2, -10, 10][k % 5])
            else:
                data[2 * o:2 * o + 2] = b"\x80\x00"
            new, _ = ref.read_values(d, m["len"], bytes(data))
            # without a factor a value is as with factor 0
            if any((old[x][1] or 0) != (new[x][1] or 0) and new[x][0] is not None for x in new):
                m["data"] = bytes(data).hex()
                return c
            data = bytearray(bytes.fromhex(m["data"]))
        return None
    # ---- the definition
    if kind == "def id":
        old = d["id"]
        d["id"] = free_id(c, 64999)
        for x in c["models"]:
            if x["id"] == old:
                x["id"] = d["id"]
        return c
    if kind == "def len":
        d["len"] += 1 + k % 3
        return c
    if kind == "undefined":
        c["defs"] = [x for x in c["defs"] if x is not d]
        return c
    if kind == "no repeating":
        f = d["fixed"]["len"]
        if not d["repeating"] or not f or any(x["len"] != f for x in c["models"] if x["id"] == d["id"]):
            return None
        d["repeating"] = None
        return c
    if kind == "block len":
        # a fixed block longer by one, the reported lengths unchanged: only without repeating block
        if d["repeating"] or any(x["len"] <= d["fixed"]["len"] for x in c["models"] if x["id"] == d["id"]):
            return None
        d["fixed"]["len"] += 1
        return c
    blk = d["repeating"] if d["repeating"] and k % 2 and len(ref.layout(d, m["len"])) > 1 else d["fixed"]
    if not blk["points"]:
        return None
    if kind == "extra point":
        blk["points"].append({"id": "Xtra", "offset": blk["len"] - 1, "type": "uint16"})
        return c
    if kind == "units":
        # units given by one definition only do not count
        p = [p for p in blk["points"] if p["type"] != "pad"]
        if not p:
            return None
        p[k % len(p)]["units"] = UNITS + "x"
        return c
    if kind.startswith("symbol"):
        ps = [p for p in blk["points"] if p.get("symbols")]
        if not ps:
            return None
        p = ps[k % len(ps)]
        s = p["symbols"][k // 5 % len(p["symbols"])]
        if kind == "symbol value":
            s["value"] = "77"
        elif kind == "symbol id":
            s["id"] = "OTHER"
        elif k % 3:
            p["symbols"].remove(s)
        else:
            p["symbols"].append({"id": "MORE", "value": "78"})
        return c
    for j in range(len(blk["points"])):
        p = blk["points"][(k + j) % len(blk["points"])]
        if kind == "access":
            p["access"] = "rw" if (p.get("access") or "r") == "r" else "r"
            return c
        if kind == "mandatory":
            p["mandatory"] = "true" if (p.get("mandatory") or "false") == "false" else "false"
            return c
        if kind == "point type" and p["type"] in SAME_WIDTH:
            p["type"] = SAME_WIDTH[p["type"]]
            if p["type"] not in ref.SCALABLE:
                p.pop("sf", None)
            return c
        if kind == "point offset":
            p["offset"] += 1
            return c
        if kind == "point len" and p["type"] == "string":
            p["len"] += 1
            return c
    return None


@part("C27", "compare", lambda tier: st.fixed_dictionaries(
    {"dev": pics_case(), "diff": st.sampled_from(DIFFS), "k": st.integers(0, 1000), "how": st.sampled_from(["pics", "pics", "api"])}),
      quick=900, rule="a difference was made, or the devices have at least two blocks")
def compare_devices(case, rec):
    a, kind = case["dev"], case["diff"]
    if kind == "no repeating":
        # the devices have none of the repeating blocks one definition allows
        a = copy.deepcopy(a)
        for m in a["models"]:
            d = find_def(a, m)
            if d is not None and d["repeating"] and d["fixed"]["len"]:
                m["len"] = d["fixed"]["len"]
                m["data"] = m["data"][:4 * m["len"]]
    if kind == "units":
        a = copy.deepcopy(a)
        for d in a["defs"]:
            for x in (d["fixed"], d["repeating"]):
                for p in (x or {"points": []})["points"]:
                    p["units"] = UNITS
    b = a if kind == "none" else make_difference(a, kind, case["k"])
    if b is None:
        rec.nontrivial(False)
        return
    rec.label(kind)
    how = case["how"]
    # values are applied by point id, so that documents are the same unless the values are the difference
    with definitions(*a["defs"]):
        d1 = no_error(build_device, "building a device", a, how, None)
    doc = pics_device(b if kind in ("model count", "block count", "factor", "factor none", "def id", "unknown id") + VALUE_DIFFS else a)
    with definitions(*b["defs"]):
        if kind in ("none", "model count", "block count", "factor", "factor none") + VALUE_DIFFS and how == "api":
            d2 = no_error(build_device, "building a device", b, how, None)
        else:
            d2 = sut.device.Device()
            no_error(d2.from_pics, "loading a PICS document", element=doc)
    s1, s2 = states(d1), states(d2)
    for x, y, what in ((d1, d2, "first with second"), (d2, d1, "second with first")):
        got = no_error(x.not_equal, "not_equal, comparing %s device (%s)" % (what, kind), y)
        if bool(got) != (kind != "none"):
            fail("comparing %s device: not_equal gives %r, the difference is: %s", what, got, kind)
    eq((states(d1), states(d2)), (s1, s2), "points of the devices after the comparison")
    # a change after the comparison, and back
    free = free_points(d2)
    if kind == "none" and free:
        for n in {case["k"] % len(free), len(free) - 1}:
            key, p, v = free[n]
            old = p.value
            for new, same in ((v, False), (old, True)):
                p.value = new
                for x, y in ((d1, d2), (d2, d1)):
                    got = no_error(x.not_equal, "not_equal after a change", y)
                    if bool(got) == same:
                        fail("comparing devices whose point %s has the values %r and %r: not_equal gives %r", key, old, new, got)
    rec.nontrivial(kind != "none" or sum(len(m.blocks) for m in d1.models_list) > 1)


@part("C27", "large", lambda tier: st.fixed_dictionaries(
    {"dev": large_pics_case(what=("models", "models", "points")), "k": st.integers(0, 1000000),
     "diff": st.one_of(st.sampled_from(["value", "factor", "none", "value none", "value"]), st.sampled_from(DIFFS)), "how": st.sampled_from(["pics", "api"])}),
      quick=350, rule="devices of up to 50 models, models of up to 300 points; non-trivial as for compare")
def compare_large(case, rec):
    case = dict(case, k=case["k"] * 7919 % 1000003)
    compare_devices(case, rec)


@st.composite
def again_case(draw):
    c = draw(pics_case())
    c["earlier"] = [[gen.refill(find_def(c, m), m["len"], draw) if find_def(c, m) else m["data"] for m in c["models"]]
                    for _ in range(draw(st.integers(1, 2)))]
    c["transport"] = draw(st.sampled_from(bench.TRANSPORTS))
    return {"dev": c, "diff": draw(st.sampled_from(["none", "none", "none", "value", "value string", "value float", "value none", "factor", "factor none"])), "k": draw(st.integers(0, 1000)),
            "rescan": draw(st.booleans())}


@part("C27", "read-again", lambda tier: again_case(), quick=300,
      rule="a client device that was read with other contents before, compared with one read once; non-trivial: the earlier contents differ")
def compare_read(case, rec):
    a, kind = case["dev"], case["diff"]
    other = a if kind == "none" else make_difference(a, kind, case["k"])
    if other is None:
        rec.nontrivial(False)
        return
    got = []
    for c, earlier in ((a, a["earlier"]), (other, [])):
        with bench.bench(c) as b:
            cd = b.open()
            no_error(cd.scan, "scan")
            for contents in earlier:
                for j, h in enumerate(contents):
                    b.set_model_data(j, bytes.fromhex(h))
                no_error(cd.read_points, "read of earlier contents")
            for j, m in enumerate(c["models"]):
                b.set_model_data(j, bytes.fromhex(m["data"]))
            if case["rescan"]:
                no_error(cd.scan, "scan")
            no_error(cd.read_points, "read")
            cd.close()
            got.append(cd)
    for x, y, what in ((got[0], got[1], "the device read before with the other"), (got[1], got[0], "the other with the device read before")):
        r = no_error(x.not_equal, "not_equal", y)
        if bool(r) != (kind != "none"):
            fail("comparing %s: not_equal gives %r, the difference is: %s", what, r, kind)
    rec.label(kind)
    rec.nontrivial(any(h != m["data"] for e in a["earlier"] for h, m in zip(e, a["models"])))


# --------------------------------------------------------------------------------------- C26

PLACES = ["d0", "d1", "d2", "d3", "d4.zip", "d5.zip/in"]


@st.composite
def lookup_case(draw):
    ids = draw(st.lists(st.sampled_from([1, 7, 101, 64001, 12345]), min_size=1, max_size=3, unique=True))
    files = {}
    for i in ids:
        for p in PLACES + ["cwd", "pkg"]:
            if draw(st.integers(0, 2)) == 0:
                files.setdefault(p, []).append(i)
    lists = st.builds(lambda n, l: ["none"] * n + l, st.sampled_from([0] * 12 + [5, 9, 30]),
                      st.lists(st.sampled_from(PLACES + ["none", "none.zip"]), max_size=3))
    steps, depth = [], 0
    for _ in range(draw(st.integers(2, 10))):
        op = draw(st.sampled_from(["get", "get", "get", "enter", "enter", "exit", "raise", "add", "load", "global", "bad", "badscope"]))
        if op == "badscope":
            names = draw(lists)
            steps.append(["badscope", names, draw(st.integers(0, len(names))), draw(st.integers(0, 1))])
        elif op == "enter":
            steps.append(["enter", draw(lists), draw(st.booleans())])
            depth += 1
        elif op in ("exit", "raise"):
            if depth:
                steps.append([op])
                depth -= 1
        elif op == "add":
            steps.append(["add", draw(st.sampled_from(PLACES))])
        elif op == "global":
            if depth == 0:
                steps.append(["global", draw(st.one_of(st.none(), lists))])
        elif op == "bad":
            steps.append(["bad", draw(st.sampled_from(PLACES[:4])), draw(st.sampled_from(ids))])
        else:
            steps.append([op, draw(st.sampled_from(ids))])
    # directories that have the name of a definition
    dirs = draw(st.lists(st.tuples(st.sampled_from(["d0", "d1", "d2", "d3", "cwd", "pkg"]), st.sampled_from(ids)), max_size=2))
    return {"ids": ids, "files": files, "dirs": [list(x) for x in dirs], "global": draw(st.one_of(st.none(), lists)), "steps": steps}


def variant(mid, place):
    """The definition of a model as placed somewhere: recognizable by its label and layout."""
    n = 1 + (PLACES + ["cwd", "pkg"]).index(place)
    return {"id": mid, "len": n, "name": None, "label": "%d in %s \u00b0" % (mid, place), "repeating": None,
            "fixed": {"len": n, "name": None, "points": [{"id": "P", "offset": n - 1, "type": "uint16"}]}}


def enc_of(mid, place):
    return ref.ENCODINGS[(mid + len(place)) % len(ref.ENCODINGS)]


class Boom(Exception):
    pass


@part("C26", "lookup", lambda tier: lookup_case(), quick=1000, rule="a lookup inside a scope and one after leaving it")
def lookup(case, rec):
    has_pkg = isinstance(getattr(sut.device, "model_type_path_default", None), str)
    with scratch() as tmp:
        real = {}
        for p in PLACES + ["cwd", "pkg"]:
            real[p] = os.path.join(tmp, *p.split("/"))
            if ".zip" in p:
                zf, inner = real[p].split(".zip")[0] + ".zip", p.split(".zip")[1].strip("/")
                with zipfile.ZipFile(zf, "w") as z:
                    z.writestr("readme", b"x")
                    for i in case["files"].get(p, []):
                        z.writestr((inner + "/" if inner else "") + ref.smdx_name(i), ref.smdx_xml(variant(i, p), enc_of(i, p)))
            else:
                os.makedirs(real[p])
                for i in case["files"].get(p, []):
                    write_def(variant(i, p), real[p], ref.smdx_xml(variant(i, p), enc_of(i, p)))
        for p, i in case.get("dirs", []):
            if i not in case["files"].get(p, []):
                os.makedirs(os.path.join(real[p], ref.smdx_name(i)), exist_ok=True)
        real["none"] = os.path.join(tmp, "none")
        real["none.zip"] = os.path.join(tmp, "none.zip")
        saved = getattr(sut.device, "model_type_path_default", None)
        try:
            if has_pkg:
                sut.device.model_type_path_default = real["pkg"]
            with in_dir(real["cwd"]):
                run_lookups(case, rec, real, has_pkg)
        finally:
            if has_pkg:
                sut.device.model_type_path_default = saved


def run_lookups(case, rec, real, has_pkg):
    dev = sut.device
    files = {p: set(v) for p, v in case["files"].items()}
    broken = set()
    inside = after = False

    def make(names):
        return None if names is None else sut.util.PathList([real[n] for n in names])

    g = case["global"]
    dev.file_pathlist = make(g)
    # (names in effect, path list object, context manager) of every open scope, the global one first
    stack = [[None if g is None else list(g), dev.file_pathlist, None]]
    left = 0
    for k, s in enumerate(case["steps"]):
        what = "step %d %s: " % (k, s[:2])
        if s[0] == "enter":
            cm = dev.fresh_file_pathlist(*[pathlib.Path(real[n]) if s[2] else real[n] for n in s[1]])
            pl = no_error(cm.__enter__, what + "entering")
            eq(dev.file_pathlist is pl, True, what + "the temporary path list is in effect")
            stack.append([list(s[1]), pl, cm])
        elif s[0] == "badscope":
            # one of the paths is none: the scope is not entered (or entered and left)
            paths = [real[n] for n in s[1]]
            paths.insert(s[2], [None, 7][s[3]])
            try:
                with dev.fresh_file_pathlist(*paths):
                    pass
            except Exception:
                rec.label("scope refused")
            eq(dev.file_pathlist is stack[-1][1], True, what + "the previous path list is still in effect")
        elif s[0] in ("exit", "raise"):
            names, pl, cm = stack.pop()
            left += 1
            if s[0] == "exit":
                no_error(cm.__exit__, what + "leaving", None, None, None)
            else:
                e = Boom("x")
                try:
                    swallowed = cm.__exit__(Boom, e, None)
                except Boom:
                    swallowed = False
                eq(bool(swallowed), False, what + "the exception goes on")
                rec.label("left by exception")
            eq(dev.file_pathlist is stack[-1][1], True, what + "the previous path list is in effect again")
        elif s[0] == "global":
            dev.file_pathlist = make(s[1])
            stack[0][:2] = [None if s[1] is None else list(s[1]), dev.file_pathlist]
        elif s[0] == "add":
            if stack[-1][0] is None:
                continue
            dev.file_pathlist.add(real[s[1]])
            stack[-1][0].append(s[1])
        elif s[0] == "bad":
            # a definition is damaged: found first, it is an error
            p = os.path.join(real[s[1]], ref.smdx_name(s[2]))
            if s[2] in files.get(s[1], ()):
                with open(p, "wb") as f:
                    f.write(b"<sunSpecModels><model")
                broken.add((s[1], s[2]))
                # a cached good definition would be a fair answer as well
        else:
            mid = s[1]
            place = None
            for n in stack[-1][0] or []:
                if mid in files.get(n, ()):
                    place = n
                    break
            if place is None and mid in files.get("cwd", ()):
                place = "cwd"
            if place is None and mid in files.get("pkg", ()):
                if not has_pkg:
                    continue
                place = "pkg"
            if place is None:
                rec.label("nowhere")
            if s[0] == "get":
                fn = lambda: dev.model_type_get(mid)
            else:
                def fn():
                    m = dev.Model(None, mid, 40004, 0)
                    m.load()
                    return m.model_type
            if place is None or (place, mid) in broken:
                expect_error(ERR, fn, what + "definition that is nowhere or damaged")
            else:
                mt = no_error(fn, what + "definition found in " + place)
                check_type(mt, variant(mid, place), what)
                rec.label("in " + place)
            if len(stack) > 1:
                inside = True
            elif left:
                after = True
    while len(stack) > 1:
        stack.pop()[2].__exit__(None, None, None)
        eq(dev.file_pathlist is stack[-1][1], True, "the previous path list is in effect again at the end")
    for names, pl, cm in stack:
        if pl is not None:
            eq(list(pl.path), [real[n] for n in names], "the global path list at the end")
    rec.nontrivial(inside and after)


@part("C26", "names", lambda tier: st.one_of(
    st.integers(0, 99999).map(lambda i: {"id": i}),
    st.integers(100000, 9999999).map(lambda i: {"id": i}),
    st.sampled_from(["smdx_.xml", "smdx_abc.xml", "model_00001.xml", "smdx_00001.txt", "smdx_1.5.xml", "", "smdx_00001", "00001.xml",
                     "smdx-00001.xml", "xsmdx_00001.xml", "smdx_00001.xml.bak"]).map(lambda n: {"name": n})),
      quick=300, rule="every case")
def names(case, rec):
    x = sut.smdx
    if "id" in case:
        n = no_error(x.model_id_to_filename, "model_id_to_filename", case["id"])
        eq(n, "smdx_%05d.xml" % case["id"], "file name of model %d" % case["id"])
        eq(x.model_id_to_filename(str(case["id"])), n, "file name of model id given as text")
        eq(no_error(x.model_filename_to_id, "model_filename_to_id", n), case["id"], "model id of " + n)
    else:
        eq(no_error(x.model_filename_to_id, "model_filename_to_id", case["name"]), None, "model id of %r" % case["name"])
