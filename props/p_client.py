"""C05 scan, C06 reads, C07 read requests, C08 writes, C09 failed writes, C28 scripting objects, C33 client errors."""
import math, os, struct
from hypothesis import strategies as st
import harness, ref, gen, bench, fakes
from harness import part, enumerated, eq, fail, close_to, no_error, attempt, expect_error
from props.p_codec import check_read_state, settable, all_points, HEX6, SET_INTS
from props.p_modbus import rtu_faults, tcp_faults, wire_fault, CONN_KIND, HOST, PORT
import sut

CErr = sut.client.SunSpecClientError


def fits(case, m):
    """the model's definition, or None if it is unknown or does not fit the reported length"""
    for d in case["defs"]:
        if d["id"] == m["id"]:
            if ref.layout(d, m["len"]) is None:
                return None
            return d
    return None


# --------------------------------------------------------------------------------- C05

@st.composite
def scan_case(draw):
    c = draw(bench.device_case(max_models=5, max_defs=3, fixed_kw=dict(max_points=5), rep_kw=dict(max_points=3), min_models=0))
    ids = [d["id"] for d in c["defs"]]
    if draw(st.integers(0, 5)) == 0 and 1 not in ids:
        c["defs"][0]["id"] = 1
        for m in c["models"]:
            if m["id"] == ids[0]:
                m["id"] = 1
    # models that do not fit their definition, or have any length and no definition
    for m in c["models"]:
        if draw(st.integers(0, 3)) == 0:
            n = draw(st.one_of(st.integers(1, 12), st.integers(1, 400)))
            m["len"] = n
            m["data"] = (b"\x01\x02" * n).hex()
        if draw(st.integers(0, 11)) == 0 and m["len"]:
            m["id"] = draw(st.sampled_from([0, 65534, 65535 - 256, 255]))
    if c["models"] and draw(st.integers(0, 9)) == 0:
        # many of a kind
        k = draw(st.integers(0, len(c["models"]) - 1))
        if c["models"][k]["len"] <= 120:
            c["models"] += [c["models"][k]] * draw(st.integers(7, 24))
    c["end"] = draw(st.sampled_from(["id+len", "id"]))
    if c["transport"] == "mapped" and c["models"]:
        c["end"] = draw(st.sampled_from(["id+len", "id", "none"]))
    c["decoys"] = []
    for a in (40000, 0, 50000):
        if a != c["base"]:
            k = draw(st.sampled_from(["none", "none", "junk", "near", "suns"]))
            if k == "junk":
                c["decoys"].append([a, "0102030405060708"])
            elif k == "near":
                c["decoys"].append([a, draw(st.sampled_from([b"SunT", b"sunS", b"SuSn", b"Suns", b"nuSS"])).hex() + "ffff0000"])
            elif k == "suns" and [40000, 0, 50000].index(a) > [40000, 0, 50000].index(c["base"]):
                c["decoys"].append([a, b"SunS".hex() + "ea6500010001ffff0000"])
    c["missing"] = draw(st.sampled_from(["exception", "silence"]))
    c["how"] = draw(st.sampled_from(["bare", "bare", "scripting"]))
    c["rescans"] = draw(st.sampled_from([0, 0, 1, 2]))
    c["known_base"] = draw(st.sampled_from([False, False, False, True]))
    if c["known_base"] and draw(st.integers(0, 2)):
        # a base address of the user's own, whatever the usual ones hold
        c["base"] = draw(st.sampled_from([100, 25000, 12345, 55000, 0, 50000, "top"]))
        if c["base"] == "top":          # a map at the very end of the address space
            c["base"] = 0
            c["base"] = 65536 - len(bench.image(c)[0]) // 2
        c["decoys"] = [[a, b"SunS".hex() + "ea6500010001ffff0000"] for a in (40000, 0, 50000) if a != c["base"] and draw(st.booleans())]
        c["lost"] = draw(st.sampled_from([None, None, "53756e54", "00000000", "53756e73"]))
    elif not c["known_base"] and c["how"] == "bare" and draw(st.integers(0, 3)) == 0:
        # the user's own list of addresses to try, set or edited in place
        pool = draw(st.permutations([9000, 25000, 12345, 55000, 0, 40000, 50000]))
        n = draw(st.integers(1, 4))
        k = draw(st.integers(0, n - 1))
        c["bases"] = [draw(st.sampled_from(["set", "edit"])), list(pool[:n])]
        c["base"] = pool[k]
        c["decoys"] = [[a, b"SunS".hex() + "ea6500010001ffff0000"] for a in pool[k + 1:] if draw(st.booleans())]
        c["decoys"] += [[a, "53756e54ea650001"] for a in pool[:k] if draw(st.integers(0, 2)) == 0]
    c["broken_def"] = draw(st.sampled_from([None] * 6 + [0]))
    c["first"] = draw(st.sampled_from([None, None, None, "silence", "exception"]))
    if c["models"] and draw(st.integers(0, 3)) == 0:
        # other models at the next scan
        c["change"] = draw(st.lists(st.integers(0, len(c["models"]) - 1), max_size=6))
    return c


def check_scanned(case, b, cd, what):
    eq(cd.base_addr, b.base, what + ": base address")
    got = [(int(m.id), int(m.addr), int(m.len), m.index) for m in cd.models_list]
    seen, want = {}, []
    for m, a in b.pos:
        seen[m["id"]] = seen.get(m["id"], 0) + 1
        n = m["len"]
        want.append((m["id"], a + 2, n, seen[m["id"]]))
    eq(got, want, what + ": models (id, address, length, index)")
    eq(sorted(cd.models), sorted(seen), what + ": model ids in the dictionary")
    for k, v in cd.models.items():
        eq([id(x) for x in v], [id(x) for x in cd.models_list if x.id == k], what + ": models of id %r" % k)
    for m, (cm, a) in zip(cd.models_list, b.pos):
        d = fits(case, cm)
        if case.get("broken_def") is not None and cm["id"] == case["defs"][case["broken_def"]]["id"]:
            d = None
        if d is None:
            if not m.load_error:
                fail("%s: model %r of length %r has no load error", what, cm["id"], cm["len"])
        else:
            eq(m.load_error, None, what + ": load error of model %r" % cm["id"])
            eq(len(m.blocks), len(ref.layout(d, cm["len"])), what + ": blocks of model %r" % cm["id"])


@st.composite
def large_scan_case(draw):
    c = draw(bench.large_case(what=("models", "kinds")))
    if c["transport"] == "mapped" and c["models"] and draw(st.booleans()):
        c["end"] = "none"
    for k in range(0, len(c["models"]), draw(st.integers(3, 9))):
        if c["models"][k]["len"]:
            c["models"][k] = dict(c["models"][k], id=draw(st.sampled_from([60001, 60002, 7, 64999])))
    c.update(decoys=[], missing=draw(st.sampled_from(["exception", "silence"])), how=draw(st.sampled_from(["bare", "scripting"])),
             rescans=draw(st.integers(0, 1)), known_base=False, broken_def=None)
    if draw(st.booleans()) and c["models"]:
        # one more, of great length
        n = draw(st.sampled_from([126, 1000, 5000, 14000, 20000, 33000]))
        at = draw(st.integers(0, len(c["models"])))
        total = sum(m["len"] + 2 for m in c["models"]) + 6
        n = min(n, 65536 - c["base"] - total)
        if n > 0:
            c["models"].insert(at, {"id": 60001, "len": n, "data": "0000" * n})
    return c


@part("C05", "large", lambda tier: large_scan_case(), quick=120,
      rule="chains of up to 51 models, of up to 33000 registers; non-trivial: 10 models or more than 1000 registers")
def c05_large(case, rec):
    scan(case, rec)
    rec.nontrivial(len(case["models"]) > 9 or sum(m["len"] for m in case["models"]) > 1000)


@part("C05", "scan", lambda tier: scan_case(), quick=700,
      rule="chains of 0..5 known, unknown, ill-fitting, undefinable models at base 40000/0/50000 with unreadable, silent, unrelated or "
           "near-miss registers at the other bases, over RTU/TCP/mapped; ends by marker with or without length, or at the end of "
           "the map; scanned again up to twice, or with the base address known; non-trivial: 2+ models or an unknown/ill-fitting one")
def c05(case, rec):
    scan(case, rec)


SIMPLE = {"decoys": [], "missing": "exception", "how": "bare", "rescans": 0, "known_base": False, "broken_def": None}


def length_cases(tier):
    d = {"id": 64321, "name": None, "len": 1, "fixed": {"len": 1, "name": None, "points": [{"id": "A", "offset": 0, "type": "uint16"}]}}
    lengths = list(range(0, 280)) + [x for k in range(9, 16) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1, 3 << k - 1)] + [25520, 25521, 25522]
    for n in lengths:
        if n > 65400:
            continue
        base = 0 if n > 15000 else (40000, 0, 50000)[n % 3]
        yield dict(SIMPLE, transport=("tcp", "mapped", "rtu")[n // 3 % 3], base=base, unit=1, defs=[d], end=("id+len", "id")[n % 2],
                   models=[{"id": 60001, "len": n, "data": (b"\x5a" * 2 * n).hex()}, {"id": 64321, "len": 1, "data": "0007"}])
        if 0 < n < 280:
            # a known model reporting that length, and something after it
            yield dict(SIMPLE, transport="mapped", base=40000, unit=1, defs=[d], end=("id+len", "id", "none")[n % 3],
                       models=[{"id": 64321, "len": n, "data": (b"\x5a" * 2 * n).hex()}, {"id": 60001, "len": 2, "data": "00070008"}])


@enumerated("C05", "every-length", length_cases,
            rule="a model of every length from 0 to 279 and around every power of two, unknown or with a definition it does not fit, and one after it; every case")
def c05len(case, rec):
    scan(case, rec)
    rec.nontrivial(True)


def id_cases(tier):
    step = 5000
    for first in range(0, 65535, step):
        ids = list(range(first, min(first + step, 65535)))
        yield {"transport": "mapped", "base": (40000, 0, 50000)[first // step % 3], "ids": ids}


@enumerated("C05", "every-id", id_cases, rule="chains of models of every id from 0 to 65534; every case")
def c05id(case, rec):
    data = b"SunS" + b"".join(struct.pack(">HHH", i, 1, i) for i in case["ids"]) + b"\xff\xff\0\0"
    base = case["base"] if case["base"] + len(data) // 2 <= 65536 else 0
    d = {"id": case["ids"][len(case["ids"]) // 2], "name": None, "len": 1, "fixed": {"len": 1, "name": None, "points": [{"id": "A", "offset": 0, "type": "uint16"}]}}
    scan(dict(SIMPLE, transport="mapped", base=base, unit=1, defs=[d], end="id+len",
              models=[{"id": i, "len": 1, "data": struct.pack(">H", i).hex()} for i in case["ids"]]), rec)
    rec.nontrivial(True)


def scan(case, rec):
    with bench.bench(case) as b:
        if case["broken_def"] is not None:
            with open(os.path.join(b.tmp, ref.smdx_name(case["defs"][case["broken_def"]]["id"])), "wb") as f:
                f.write(b"<sunSpecModels><model id='1'")
        if case["how"] == "scripting" and not case["known_base"]:
            sd = no_error(b.open_scripting, "construction")
            cd = sd.device
        else:
            cd = b.open()
            if case["known_base"]:
                cd.base_addr = b.base
            if case.get("bases"):
                if case["bases"][0] == "set":
                    cd.base_addr_list = list(case["bases"][1])
                else:
                    cd.base_addr_list[:] = case["bases"][1]
                rec.label("own base address list")
            if case.get("first") and b.dev is not None:
                # nothing answers at first
                b.dev.arm([{"at": n, "kind": case["first"], "code": 4} for n in range(20)])
                expect_error(CErr, cd.scan, "scan of a device that does not answer")
                b.dev.disarm()
                rec.label("failed at first")
            no_error(cd.scan, "scan")
        check_scanned(case, b, cd, "scan")
        for k in range(case["rescans"]):
            no_error(cd.scan, "rescan %d" % k)
            check_scanned(case, b, cd, "rescan %d" % k)
        if case.get("change") is not None and b.dev is not None:
            now = dict(case, base=b.base, models=[case["models"][k] for k in case["change"]])
            img, pos = bench.image(now)
            if b.base + len(img) // 2 <= 65536:
                b.dev.load(b.base, img)
                b.img, b.pos = img, pos
                no_error(cd.scan, "scan of a device with other models than at the last scan")
                check_scanned(now, b, cd, "scan of a device with other models than at the last scan")
                rec.label("other models")
        if case.get("bases"):
            other = b.open()
            eq(list(other.base_addr_list), [40000, 0, 50000], "addresses a new device will try")
            other.close()
            if b.transport == "rtu":
                cd = b.open()
        if case.get("lost") and b.dev is not None:
            # no SunSpec map there any more
            b.dev.load(b.base, bytes.fromhex(case["lost"]))
            expect_error(CErr, cd.scan, "scan of a device that has lost its map at %d" % b.base)
            rec.label("lost")
        if b.dev is not None:
            eq([r for r in b.dev.log if r["func"] == 16], [], "write requests during the scan")
            eq(b.dev.bad_frames, [], "malformed requests")
        cd.close()
        odd = [m for m in case["models"] if fits(case, m) is None]
        rec.nontrivial(len(case["models"]) > 1 or bool(odd))
        rec.label(case["transport"], "base-%d" % b.base, "end-" + case["end"], "rescan" if case["rescans"] else "once")
        if odd:
            rec.label("odd")
        if len(set(m["id"] for m in case["models"])) < len(case["models"]):
            rec.label("repeated-id")


@st.composite
def progress_case(draw):
    c = draw(scan_case())
    c["broken_def"] = None
    if c["known_base"]:
        c["known_base"], c["base"], c["decoys"], c["lost"] = False, 40000, [], None
    if c.pop("bases", None):
        c["base"], c["decoys"] = 40000, []
    c["stop"] = draw(st.sampled_from([None, None, None, 0, 1, 2, 3]))
    c["falsy"] = draw(st.sampled_from([False, None, 0, ""]))
    c["truthy"] = draw(st.sampled_from([True, 1, "yes"]))
    c["progress"] = draw(st.sampled_from([True, True, True, False]))
    c["delay"] = draw(st.sampled_from([None, None, 0.01, 1, 2.5, 0]))
    return c


@part("C05", "progress", lambda tier: progress_case(), quick=250,
      rule="the same chains scanned with a progress function that always goes on or stops at a model, and with a delay on a simulated "
           "clock; after a stop scanned again; non-trivial: one or more models and a progress function")
def c05p(case, rec):
    with bench.bench(case) as b:
        calls = []
        cd = None

        def progress(text):
            calls.append([text, len(cd.models_list) if cd is not None else None])
            return case["falsy"] if case["stop"] == len(calls) - 1 else case["truthy"]
        fn = progress if case["progress"] else None
        t0 = b.world.clock
        stopped = fn is not None and case["stop"] is not None and case["stop"] < len(case["models"])
        if case["how"] == "scripting":
            if stopped:
                expect_error(CErr, lambda: b.open_scripting(scan_progress=fn, scan_delay=case["delay"]), "construction with an ended scan")
            else:
                cd = no_error(lambda: b.open_scripting(scan_progress=fn, scan_delay=case["delay"]), "construction").device
            calls_at_end = list(calls)
        else:
            cd = b.open()
            if stopped:
                expect_error(CErr, lambda: cd.scan(progress=fn, delay=case["delay"]), "ended scan")
            else:
                no_error(lambda: cd.scan(progress=fn, delay=case["delay"]), "scan")
            calls_at_end = list(calls)
        want = [m["id"] for m in case["models"]][:case["stop"] + 1 if stopped else None] if fn else []
        eq([c[0].split()[-1] for c in calls_at_end], [str(i) for i in want], "ids the progress function was called with")
        if case["how"] != "scripting":
            eq([c[1] for c in calls_at_end], list(range(len(want))), "models listed when the progress function was called")
        n = len(case["models"])
        if case["delay"] and b.transport != "mapped" and not stopped and n > 1 and b.world.clock - t0 < case["delay"] * (n - 1) - 1e-9:
            fail("a scan of %d models with delay %r waited %.3f s", n, case["delay"], b.world.clock - t0)
        if stopped:
            eq(len(b.world.open_sockets()), 0, "sockets open after an ended scan")
            eq(len(b.world.open_serials()), 1 if cd is not None and b.transport == "rtu" else 0, "ports open after an ended scan")
            if cd is None:
                cd = b.open()
            no_error(cd.scan, "scan after an ended scan")
            eq(len(calls), len(calls_at_end), "calls of the progress function by a later scan")
        check_scanned(case, b, cd, "scan after an ended scan" if stopped else "scan")
        for k in range(case["rescans"]):
            no_error(cd.scan, "rescan %d" % k)
            check_scanned(case, b, cd, "rescan %d" % k)
        if case.get("lost") and b.dev is not None:
            # no SunSpec map there any more
            b.dev.load(b.base, bytes.fromhex(case["lost"]))
            expect_error(CErr, cd.scan, "scan of a device that has lost its map at %d" % b.base)
            rec.label("lost")
        cd.close()
    rec.nontrivial(bool(case["models"]) and fn is not None)
    rec.label("stopped" if stopped else "complete", case["how"], case["transport"])
    if case["delay"]:
        rec.label("delay")


@st.composite
def no_map_case(draw):
    t = draw(st.sampled_from(bench.TRANSPORTS))
    regs = []
    for a in (40000, 0, 50000):
        k = draw(st.sampled_from(["none", "junk", "near", "short"]))
        if k == "junk":
            regs.append([a, "010203040506"])
        elif k == "near":
            regs.append([a, draw(st.sampled_from([b"SunT", b"sunS", b"SUNS", b"\0SunS"])).hex() + "00ffff000000"])
        elif k == "short":
            regs.append([a, b"SunS".hex()])
    regs.sort()
    return {"transport": t, "regs": [r if len(r[1]) % 4 == 0 else [r[0], r[1] + "00"] for r in regs], "how": draw(st.sampled_from(["bare", "scripting"])),
            "missing": draw(st.sampled_from(["exception", "silence"]))}


@part("C05", "no-map", lambda tier: no_map_case(), quick=200,
      rule="devices and maps with nothing, unrelated or near-miss registers at the three bases; all non-trivial")
def c05n(case, rec):
    w = fakes.world()
    with harness.scratch() as tmp:
        if case["transport"] == "mapped":
            path = tmp + "/m.xml"
            regs = case["regs"] or [[100, "0001"]]
            with open(path, "wb") as f:
                f.write(ref.mbmap_xml(regs[0][0], [(a - regs[0][0], bytes.fromhex(h)) for a, h in regs]))
            args, kw = (sut.client.MAPPED,), dict(slave_id=1, name=path)
        else:
            dev = fakes.Device(unit=1)
            dev.missing = case["missing"]
            for a, h in case["regs"]:
                dev.load(a, bytes.fromhex(h))
            w.ports[PORT] = [dev]
            w.hosts[HOST] = [dev]
            args = (sut.client.RTU if case["transport"] == "rtu" else sut.client.TCP,)
            kw = dict(slave_id=1, name=PORT) if case["transport"] == "rtu" else dict(slave_id=1, ipaddr=HOST[0], ipport=HOST[1])
        if case["how"] == "scripting":
            expect_error(CErr, lambda: sut.client.SunSpecClientDevice(*args, **kw), "construction without a SunSpec map")
        else:
            cd = sut.client.ClientDevice(*args, **kw)
            expect_error(CErr, cd.scan, "scan without a SunSpec map")
            eq(len(cd.models_list), 0, "models found without a SunSpec map")
            cd.close()
    rec.label(case["transport"], "regs-%d" % len(case["regs"]))


# --------------------------------------------------------------------------------- C06

INT_VALUES = [t for t in ref.INT_TYPES if t not in ("sunssf", "pad")]


@st.composite
def read_case(draw, transports=bench.TRANSPORTS):
    big = draw(st.integers(0, 2)) == 0
    if big:
        c = draw(bench.device_case(transports=transports, max_models=2, max_defs=2, min_models=1,
                                   fixed_kw=dict(max_points=14, max_str=30, long_str=(60, 100, 124, 125, 126, 140, 249, 250, 251), gaps=(0, 0, 1, 3, 40)),
                                   rep_kw=dict(max_points=8, max_str=20, long_str=(50, 125, 130), gaps=(0, 0, 0, 1, 20)), max_rep=5))
    else:
        c = draw(bench.device_case(transports=transports, max_models=3, max_defs=2, min_models=1, fixed_kw=dict(max_points=10),
                                   rep_kw=dict(max_points=5), max_rep=8, many=True))
    byid = {d["id"]: d for d in c["defs"]}
    c["reads"] = []
    for _ in range(draw(st.integers(0, 2))):
        c["reads"].append([gen.refill(byid[m["id"]], m["len"], draw) if m["id"] in byid else m["data"] for m in c["models"]])
    c["scan"] = draw(st.booleans())
    c["by"] = draw(st.sampled_from(["device", "model", "scripting"]))
    if c["by"] != "scripting" and draw(st.integers(0, 5)) == 0:
        bench.at_top(c)
    c["sets"] = draw(st.lists(st.integers(0, 200), max_size=3))
    c["reload"] = draw(st.sampled_from([None, None, None, "late", "twice"]))
    # a first attempt at each later read that fails at the given request
    c["fails"] = [draw(st.one_of(st.none(), st.tuples(st.sampled_from(["silence", "exception", "truncate"]), st.sampled_from([0, 0, 1, 1, 2, 3])))) for _ in c["reads"]]
    return c


def point_state(m):
    return [(p.value_base, p.value_sf) for blk in m.blocks for p in list(blk.points_list) + list(blk.points_sf.values())]


@st.composite
def large_read_case(draw):
    c = draw(bench.large_case(registers=8000))
    by = {d["id"]: d for d in c["defs"]}
    c["reads"] = []
    if draw(st.booleans()):
        c["reads"] = [[gen.fill_model(by[m["id"]], m["len"], gen.stir(bytes.fromhex(m["data"])[:97], k + 3)).hex() if m["id"] in by else m["data"]
                       for k, m in enumerate(c["models"])]]
    c.update(scan=draw(st.booleans()), by=draw(st.sampled_from(["device", "model", "scripting"])), sets=draw(st.lists(st.integers(0, 200), max_size=3)),
             reload=None, fails=[draw(st.one_of(st.none(), st.tuples(st.sampled_from(["silence", "exception"]), st.integers(0, 5)))) for _ in c["reads"]])
    return c


@part("C06", "large", lambda tier: large_read_case(), quick=60,
      rule="devices of up to 50 models or models of up to 300 points, as for read")
def c06_large(case, rec):
    read(case, rec)


@part("C06", "read", lambda tier: read_case(), quick=600,
      rule="devices of 1..3 models (known and unknown, any point types, long strings, gaps, up to 8 repeating blocks, up to ~700 "
           "registers) over RTU/TCP/mapped, read up to 3 times with changed contents, by device, model or scripting object; "
           "non-trivial: some point of a repeating block or a model of more than 125 registers")
def c06(case, rec):
    read(case, rec)


def read(case, rec):
    byid = {d["id"]: d for d in case["defs"]}
    rep = False
    with bench.bench(case) as b:
        if case["by"] == "scripting":
            sd = b.open_scripting()
        else:
            if case.get("reload") == "late":
                # the definitions come only after the first attempt to load the models
                for d in case["defs"]:
                    os.unlink(os.path.join(b.tmp, ref.smdx_name(d["id"])))
            b.open()
            if case["scan"]:
                b.cd.scan()
            else:
                for m, a in b.pos:
                    cm = sut.client.ClientModel(b.cd, m["id"], a + 2, m["len"])
                    attempt(sut.util.SunSpecError, cm.load, "load")
                    b.cd.add_model(cm)
            if case.get("reload"):
                rec.label("load-" + case["reload"])
                for d in case["defs"]:
                    b.define(d)
                for m in b.cd.models_list:
                    if m.id in byid:
                        no_error(m.load, "loading model %d again" % m.id)
        rounds = [[m["data"] for m in case["models"]]] + case["reads"]
        given = set()
        for k, contents in enumerate(rounds):
            if k:
                # values set and never written give way to those of the device
                pts = sorted((x, p) for x, p in all_points(b.cd).items() if p.point_type.type in ("string",) + tuple(INT_VALUES))
                for n in case.get("sets", []):
                    if pts:
                        key, p = pts[n % len(pts)]
                        t = p.point_type.type
                        if p.value_base is not None:
                            p.value = "new" if t == "string" else 0
                            given.add(key)
                            rec.label("set-before-read")
                for j, h in enumerate(contents):
                    b.set_model_data(j, bytes.fromhex(h))
                fault = case.get("fails", [None] * k)[k - 1]
                if fault and b.dev is not None:
                    b.dev.arm([{"at": fault[1], "kind": fault[0], "code": 4, "n": 7, "after": "timeout"}])
                    for m in b.cd.models_list:
                        old = point_state(m)
                        _, err = attempt(CErr, m.read_points, "read %d of model %s, request %d failing" % (k, m.id, fault[1]))
                        if err is not None:
                            eq(point_state(m), old, "values of model %s after a read of it failed (%s)" % (m.id, err))
                            rec.label("failed-read")
                    b.dev.disarm()
            image = b.regs()
            if b.dev is not None:
                mark = len(b.dev.log)
            if case["by"] == "device":
                no_error(b.cd.read_points, "read %d" % k)
            elif case["by"] == "scripting":
                no_error(sd.read, "read %d" % k)
            else:
                for m in b.cd.models_list:
                    no_error(m.read_points, "read %d of model %s" % (k, m.id))
            eq(b.regs(), image, "device registers after read %d" % k)
            if b.dev is not None:
                eq([r for r in b.dev.log[mark:] if r["func"] != 3], [], "requests other than reads in read %d" % k)
            for j, h in enumerate(contents):
                m = case["models"][j]
                if m["id"] in byid:
                    check_read_state(b.cd.models_list[j], byid[m["id"]], m["len"], bytes.fromhex(h), "read %d of model %d: " % (k, m["id"]))
                    if m["len"] > 125 or len(ref.layout(byid[m["id"]], m["len"])) > 1:
                        rep = True
                    if m["len"] > 125:
                        rec.label("over-125")
            for key, p in all_points(b.cd).items():
                if p.dirty and key not in given:
                    fail("point %s is pending after a read", key)
        b.cd.close()
    rec.nontrivial(rep)
    rec.label(case["transport"], case["by"], "reads-%d" % len(rounds))


# --------------------------------------------------------------------------------- C07

@st.composite
def request_case(draw):
    kw = dict(max_points=22, max_str=20, long_str=(40, 63, 64, 100, 124, 125, 126, 130), gaps=(0, 0, 0, 1, 3, 40, 130))
    style = draw(st.sampled_from(["long", "many", "wide"]))
    if style == "wide":        # multi-register numbers filling up to the limit
        kw = dict(max_points=60, types=["uint64", "uint32", "eui48", "ipv6addr", "uint16", "float32"], gaps=(0, 0, 0, 0, 0, 0, 0, 0, 1))
    rep = dict(max_points=8, max_str=20, long_str=(50, 125), gaps=(0, 0, 0, 1, 20))
    d = draw(gen.definition(mid=draw(st.integers(2, 65000)), fixed_kw=dict(kw, min_points=1), rep_kw=rep,
                            repeating=None if style != "many" else True))
    m = draw(gen.model_image(d, max_rep=12 if style != "many" else 40, extra=True))
    return {"transport": draw(st.sampled_from(["rtu", "tcp"])), "base": draw(st.sampled_from([40000, 0, 50000])), "unit": 1,
            "defs": [d], "models": [m], "pieces": [], "end": "id+len"}


@part("C07", "requests", lambda tier: request_case(), quick=500,
      rule="definitions of up to ~1000 registers: runs of multi-register numbers, strings around 125 registers, gaps of up to 130 "
           "registers, up to 40 repeating blocks; the request log of a model read; non-trivial: a model of more than 125 registers")
def c07(case, rec):
    d, m = case["defs"][0], case["models"][0]
    if m["len"] > 15000:
        rec.nontrivial(False)
        return
    with bench.bench(case) as b:
        b.open()
        cm = b.add_models()[0]
        addr = b.pos[0][1] + 2
        mark = len(b.dev.log)
        no_error(cm.read_points, "read")
        log = b.dev.log[mark:]
        cover = {}
        for k, r in enumerate(log):
            eq(r["func"], 3, "function of a read request")
            if not 1 <= r["count"] <= 125:
                fail("request %d asks for %d registers", k, r["count"])
            if r["addr"] < addr or r["addr"] + r["count"] > addr + ref.model_length(d, m["len"]):
                fail("request %d for %d..%d is outside the model at %d..%d", k, r["addr"], r["addr"] + r["count"], addr, addr + m["len"])
            for x in range(r["addr"], r["addr"] + r["count"]):
                cover.setdefault(x, []).append(k)
        for i, o, p in gen.model_points(d, m["len"]):
            if p["type"] == "pad":
                continue
            w = ref.pw(p)
            regs = range(addr + o, addr + o + w)
            for x in regs:
                if x not in cover:
                    fail("point %s of block %d at %d (%d registers): register %d never requested", p["id"], i, addr + o, w, x)
            if w <= 125:
                whole = set(cover[regs[0]])
                for x in regs:
                    whole &= set(cover[x])
                if not whole:
                    fail("point %s of block %d (%s, %d registers at %d) is fetched in pieces: %r", p["id"], i, p["type"], w, addr + o,
                         [(r["addr"], r["count"]) for r in log])
        if m["len"] < 900:
            check_read_state(cm, d, m["len"], bytes.fromhex(m["data"]), "read: ")
        rec.nontrivial(m["len"] > 125)
        rec.label("requests-%d" % min(len(log), 8), "repeating" if d["repeating"] else "fixed")


WIDE = {1: "uint16", 2: "uint32", 4: "uint64", 8: "ipv6addr"}


def fill_block(n, w, first=0, tag="P"):
    """Points of w registers, as many as fit from register first on, then points of one register up to n; before them one-register points."""
    pts, o = [], 0
    while o < n:
        k = w if o >= first and o + w <= n else 1
        p = {"id": "%s%d" % (tag, o), "offset": o, "type": WIDE.get(k, "string")}
        if p["type"] == "string":
            p["len"] = k
        pts.append(p)
        o += k
    return {"len": n, "name": None, "points": pts}


def size_case(n, fixed, repeating, count, seed):
    total = fixed["len"] + (repeating["len"] * count if repeating else 0)
    d = {"id": 64321, "name": None, "len": fixed["len"] + (repeating["len"] if repeating else 0), "fixed": fixed, "repeating": repeating}
    data = b"".join(struct.pack(">H", (seed + 257 * i) % 0x7000 + 0x101) for i in range(total))
    return {"transport": ("tcp", "rtu")[n % 2], "base": (40000, 0, 50000)[n % 3], "unit": 1, "defs": [d],
            "models": [{"id": 64321, "len": total, "data": data.hex()}], "pieces": [], "end": "id+len"}


def size_cases(tier):
    n = 0
    for b in range(1, 131 if tier == "quick" else 260):          # a block of every length, until the third request
        for w in (1, 2, 4, 8, 3):
            if w > b:
                continue
            if tier == "quick" and b > 20 and (b + w) % 2:
                continue
            n += 1
            f = n % 5 + 1
            yield size_case(n, fill_block(f, 1, tag="F"), fill_block(b, w, first=n % 3), min(260 // b + 1, 60 if b < 4 else 260) if b > 1 else 130, n)
    for first in range(100, 128):                                # a point of every width around the limit of the first request
        for w in (2, 4, 8, 3, 20, 124, 125, 126, 130):
            n += 1
            if tier == "quick" and w > 8 and n % 2:
                continue
            yield size_case(n, fill_block(first + w + n % 4, w, first=first), None, 0, n)


@enumerated("C07", "sizes", size_cases,
            rule="blocks of every length, filled with points of 1, 2, 3, 4 or 8 registers, repeated over several requests; a point of every "
                 "width at every register around the limit of a request; non-trivial: a model of more than 125 registers")
def c07sizes(case, rec):
    c07(case, rec)


# ------------------------------------------------------------------------------- C08, C09

WRITE_KW = dict(types=gen.NUM_WEIGHTED + SET_INTS + ["string", "string", "float32", "eui48", "ipv6addr", "pad"], min_points=2, max_points=9)
WRITE_REP = dict(types=gen.NUM_WEIGHTED + SET_INTS + ["string"], min_points=1, max_points=5)


def value_points(case):
    byid = {d["id"]: d for d in case["defs"]}
    out = []
    for j, m in enumerate(case["models"]):
        if m["id"] in byid:
            for i, pid, p, sf in settable(byid[m["id"]], m["len"], bytes.fromhex(m["data"])):
                out.append((j, i, pid, p, sf))
    return out


@st.composite
def raw_value(draw, p, sf):
    t = p["type"]
    if t == "string":
        return draw(st.text(alphabet=gen.PLAIN + "é ", min_size=1, max_size=2 * ref.pw(p)))
    if t == "float32":
        return draw(st.floats(width=32, allow_nan=False, allow_infinity=False))
    if t == "ipv6addr":
        return ref.decode(t, draw(st.binary(min_size=16, max_size=16))) or "00000000:00000000:00000000:00000001"
    if t == "eui48":
        return ":".join("%02X" % x for x in draw(HEX6))
    lo, hi = ref.int_range(t)
    if sf:
        lo, hi = max(lo, -(1 << 46)), min(hi, 1 << 46)
    v = draw(st.one_of(st.integers(lo, hi), st.integers(max(lo, -300), min(hi, 300))))
    if v % (1 << 16 * ref.pw(p)) == ref.MARKER[t]:
        v = 5
    return v


@st.composite
def write_case(draw, transports=bench.TRANSPORTS, nops=8, kinds=("set", "set", "set", "setrun", "write", "write", "pwrite", "read", "poke"), minops=1):
    long = draw(st.integers(0, 3)) == 0
    fk = dict(WRITE_KW)
    if long:
        fk = dict(types=["string", "string", "uint64", "pad"], min_points=2, max_points=6, max_str=80, long_str=(62, 123, 124, 125, 126, 246, 247, 260))
    c = draw(bench.device_case(transports=transports, max_models=3, max_defs=2, scale_safe=1 << 46, fixed_kw=fk, rep_kw=WRITE_REP, max_rep=3, many=True))
    if draw(st.integers(0, 7)) == 0:
        bench.at_top(c)
    cand = value_points(c)
    ops = []
    if cand:
        for _ in range(draw(st.integers(minops, nops))):
            k = draw(st.sampled_from(kinds))
            if k in ("set", "setrun", "pwrite"):
                x = draw(st.integers(0, len(cand) - 1))
                pts = [x] if k != "setrun" else list(range(x, min(len(cand), x + draw(st.one_of(st.integers(2, 6), st.integers(2, 6), st.integers(2, 60))))))
                for y in pts:
                    j, i, pid, p, sf = cand[y]
                    ops.append(["set", j, i, pid, draw(raw_value(p, sf))])
                if k == "pwrite":
                    ops.append(["pwrite", cand[x][0], cand[x][1], cand[x][2]])
            elif k == "write":
                ops.append(["write", draw(st.integers(0, len(c["models"]) - 1))])
            elif k == "read":
                ops.append(["read"])
            else:
                ops.append(["poke", draw(st.integers(0, len(c["models"]) - 1)), draw(st.integers(0, 400)), draw(st.integers(0, 0xffff))])
    c["ops"] = ops
    return c


class Writer(object):
    """Model of pending updates and of the device's registers."""

    def __init__(self, case, b):
        self.case, self.b = case, b
        self.byid = {d["id"]: d for d in case["defs"]}
        self.img = bytearray(b.img)
        self.pending = {}        # (model, block, id) -> raw value
        self.tab = {}
        for j, (m, a) in enumerate(b.pos):
            if m["id"] in self.byid:
                d = self.byid[m["id"]]
                for i, o, p in gen.model_points(d, m["len"]):
                    self.tab[(j, i, p["id"])] = (p, a + 2 + o)

    def sf(self, key):
        j, i, pid = key
        m = self.case["models"][j]
        d = self.byid[m["id"]]
        vals, sfs = ref.read_values(d, m["len"], bytes.fromhex(m["data"]))
        return vals[key[1:]][1]

    def put(self, key, raw):
        p, a = self.tab[key]
        data = ref.encode(p["type"], raw, ref.pw(p))
        o = (a - self.b.base) * 2
        self.img[o:o + len(data)] = data

    def regs_of(self, key):
        p, a = self.tab[key]
        return set(range(a, a + ref.pw(p)))

    def set(self, key, raw):
        pt = all_points(self.b.cd)[key]
        p, a = self.tab[key]
        sf = self.sf(key)
        v = raw * math.pow(10, sf) if sf else raw
        no_error(lambda: setattr(pt, "value", v), "set %s to %r" % (key, v))
        eq(pt.value_base, raw, "raw value of %s after setting %r" % (key, v))
        self.pending[key] = raw

    def check_pending(self, what):
        got = sorted(k for k, p in all_points(self.b.cd).items() if p.dirty)
        eq(got, sorted(self.pending), what + ": pending points")

    def check_image(self, what):
        got = self.b.regs()
        if got != bytes(self.img):
            bad = [self.b.base + i for i in range(len(self.img) // 2) if got[2 * i:2 * i + 2] != self.img[2 * i:2 * i + 2]]
            fail("%s: registers %s of the device are %s, expected %s", what, bad[:6],
                 [got[2 * (x - self.b.base):][:2].hex() for x in bad[:6]],
                 [bytes(self.img[2 * (x - self.b.base):][:2]).hex() for x in bad[:6]])

    def check_requests(self, log, allowed, what):
        done = set()
        for r in log:
            if r["func"] != 16:
                fail("%s sent a request with function %r", what, r["func"])
            extra = set(range(r["addr"], r["addr"] + r["count"])) - allowed
            if extra:
                fail("%s wrote registers %s, which belong to no updated point", what, sorted(extra)[:8])
            if r["fault"] is None:
                again = done & set(range(r["addr"], r["addr"] + r["count"]))
                if again:
                    fail("%s wrote registers %s more than once", what, sorted(again)[:8])
                done |= set(range(r["addr"], r["addr"] + r["count"]))


@st.composite
def large_write_case(draw):
    c = draw(bench.large_case(scale_safe=1 << 46, registers=6000))
    cand = value_points(c)
    ops = []
    for _ in range(draw(st.integers(1, 6)) if cand else 0):
        j, i, pid, p, sf = cand[draw(st.integers(0, len(cand) - 1))]
        ops.append(["set", j, i, pid, draw(raw_value(p, sf))])
        ops += draw(st.sampled_from([[], [], [["write", j]], [["pwrite", j, i, pid]], [["read"]]]))
    c["ops"] = ops
    return c


@part("C08", "large", lambda tier: large_write_case(), quick=60,
      rule="devices of up to 50 models or models of up to 300 points, as for writes")
def c08_large(case, rec):
    writes(case, rec)


@part("C08", "writes", lambda tier: write_case(), quick=500,
      rule="histories of sets (single and runs of adjoining points, any type and scale factor), model writes, point writes, reads, and "
           "changes of other registers by the device, over RTU/TCP/mapped, registers of the device and write requests compared with a "
           "model; non-trivial: a write with something pending")
def c08(case, rec):
    writes(case, rec)


def writes(case, rec):
    with bench.bench(case) as b:
        b.open()
        for m, a in b.pos:
            cm = sut.client.ClientModel(b.cd, m["id"], a + 2, m["len"])
            attempt(sut.util.SunSpecError, cm.load, "load")
            b.cd.add_model(cm)
        b.cd.read_points()
        w = Writer(case, b)
        wrote = False
        for n, op in enumerate(list(case["ops"]) + [["write", j] for j in range(len(case["models"]))]):
            what = "step %d %r" % (n, op)
            mark = len(b.dev.log) if b.dev else 0
            if op[0] == "set":
                w.set(tuple(op[1:4]), op[4])
                if b.dev:
                    eq(len(b.dev.log), mark, what + ": requests")
            elif op[0] == "write":
                j = op[1]
                mine = {k: v for k, v in w.pending.items() if k[0] == j}
                no_error(b.cd.models_list[j].write_points, what)
                allowed = set()
                for k, v in mine.items():
                    w.put(k, v)
                    allowed |= w.regs_of(k)
                    del w.pending[k]
                wrote = wrote or bool(mine)
                if len(mine) > 1:
                    rec.label("several-points")
                if b.dev:
                    w.check_requests(b.dev.log[mark:], allowed, what)
                    if len(b.dev.log) - mark > 1:
                        rec.label("several-requests")
                    mark = len(b.dev.log)
                no_error(b.cd.models_list[j].write_points, what + " again")
                if b.dev:
                    eq(len(b.dev.log), mark, what + ": requests of a write with nothing pending")
            elif op[0] == "pwrite":
                key = tuple(op[1:4])
                if key not in w.pending:
                    continue
                no_error(all_points(b.cd)[key].write, what)
                if b.dev:
                    w.check_requests(b.dev.log[mark:], w.regs_of(key), what)
                w.put(key, w.pending.pop(key))
                rec.label("point-write")
                wrote = True
            elif op[0] == "read":
                if w.pending:
                    continue
                no_error(b.cd.read_points, what)
                for j, m in enumerate(case["models"]):
                    if m["id"] in w.byid:
                        check_read_state(b.cd.models_list[j], w.byid[m["id"]], m["len"], b.model_data(j), what + ": ")
            elif op[0] == "poke":
                m, a = b.pos[op[1]]
                if m["id"] in w.byid:
                    free = set(range(m["len"]))
                    for (j, i, pid), (p, pa) in w.tab.items():
                        if j == op[1] and p["type"] != "pad":
                            free -= set(range(pa - a - 2, pa - a - 2 + ref.pw(p)))
                    free = sorted(free)
                else:
                    free = list(range(m["len"]))
                if not free:
                    continue
                x = free[op[2] % len(free)]
                b.poke(a + 2 + x, struct.pack(">H", op[3]))
                o = (a + 2 + x - b.base) * 2
                w.img[o:o + 2] = struct.pack(">H", op[3])
                rec.label("device-changed")
            w.check_image(what)
            w.check_pending(what)
        no_error(b.cd.read_points, "final read")
        for j, m in enumerate(case["models"]):
            if m["id"] in w.byid:
                check_read_state(b.cd.models_list[j], w.byid[m["id"]], m["len"], bytes(w.img)[(b.pos[j][1] + 2 - b.base) * 2:][:2 * m["len"]], "final read: ")
        b.cd.close()
    rec.nontrivial(wrote)
    rec.label(case["transport"])


def subset_case(mask, transport, base):
    """A model of 5 fixed points (two adjoining, a gap, one, a scale factor, one of two registers) and 3 blocks of two points;
    the points in mask are set."""
    d = {"id": 64321, "name": None, "len": 7,
         "fixed": {"len": 7, "name": None, "points": [
             {"id": "A", "offset": 0, "type": "uint16", "access": "rw"}, {"id": "B", "offset": 1, "type": "int16", "access": "rw"},
             {"id": "C", "offset": 3, "type": "uint16", "access": "rw"}, {"id": "SF", "offset": 4, "type": "sunssf"},
             {"id": "D", "offset": 5, "type": "uint32", "access": "rw"}]},
         "repeating": {"len": 2, "name": None, "points": [
             {"id": "X", "offset": 0, "type": "uint16", "access": "rw"}, {"id": "Y", "offset": 1, "type": "enum16", "access": "rw"}]}}
    pts = [(0, "A"), (0, "B"), (0, "C"), (0, "D"), (1, "X"), (1, "Y"), (2, "X"), (2, "Y")]
    data = struct.pack(">HHHHhI", 11, 12, 13, 14, 0, 15) + struct.pack(">HHHHHH", 21, 22, 31, 32, 41, 42)
    ops = [["set", 0, i, p, 100 + 7 * n] for n, (i, p) in enumerate(pts) if mask >> n & 1]
    if mask % 3 == 1:
        ops.reverse()
    return {"transport": transport, "base": base, "unit": 1, "defs": [d], "models": [{"id": 64321, "len": 13, "data": data.hex()}],
            "ops": ops}


def subset_cases(tier):
    for mask in range(1, 256):
        c = subset_case(mask, ("tcp", "rtu", "mapped")[mask % 3], (40000, 0, 50000)[mask // 3 % 3])
        sets = c["ops"]
        c["ops"] = sets + [["write", 0], ["read"]]
        yield c
        # and each point on its own, in the opposite order
        yield dict(c, ops=sets + [["pwrite"] + op[1:4] for op in sets[::-1]] + [["read"]])


@enumerated("C08", "every-set", subset_cases,
            rule="every subset of the points of a model with adjoining and separate points and several blocks set, then the model (and "
                 "then each point alone) written; every case")
def c08set(case, rec):
    writes(case, rec)


def subset_fail_cases(tier):
    for mask in range(1, 256):
        for at in range(4 if tier == "thorough" else 3):
            t = ("tcp", "rtu")[(mask + at) % 2]
            f = [{"at": at, "kind": "exception", "code": 1 + mask % 4}, {"at": at, "kind": "lost"}, {"at": at, "kind": "silence"}][(mask + mask // 16 + at) % 3]
            c = subset_case(mask, t, 40000)
            c.update(faults=[f] + ([f] if mask % 5 == 0 else []), per_point=mask % 7 == 0, late_sets=mask % 2 == 0)
            yield c


@enumerated("C09", "every-set", subset_fail_cases,
            rule="the same subsets with a refusal, a lost reply or silence at the first, second and third request; non-trivial: a fault hit")
def c09set(case, rec):
    c09(case, rec)


@st.composite
def long_run_case(draw):
    pts, off = [], 0
    for k in range(draw(st.integers(8, 90))):
        t = draw(st.sampled_from(["uint16", "int16", "uint32", "int64", "enum16", "string"]))
        p = {"id": "P%d" % k, "offset": off, "type": t, "access": "rw"}
        if t == "string":
            p["len"] = draw(st.integers(1, 4))
        pts.append(p)
        off += ref.pw(p)
    fixed = {"len": off, "name": None, "points": pts}
    rep = None
    if draw(st.booleans()):
        rep = {"len": off, "name": None, "points": [dict(p) for p in pts]}
    n = 1 if rep is None else draw(st.integers(1, 4))
    one = b"".join(ref.encode(p["type"], "a" if p["type"] == "string" else 1, ref.pw(p)) for p in pts)
    d = {"id": 900, "name": None, "len": off * (2 if rep else 1), "fixed": fixed, "repeating": rep}
    total = len(pts) * n
    skip = draw(st.lists(st.integers(0, total - 1), max_size=draw(st.sampled_from([0, 0, 1, 4]))))
    return {"transport": draw(st.sampled_from(bench.TRANSPORTS)), "base": 40000, "unit": 1, "defs": [d], "pieces": [], "end": "id+len",
            "models": [{"id": 900, "len": off * n, "data": (one * n).hex()}, {"id": 900, "len": off * n, "data": (one * n).hex()}],
            "skip": skip, "order": draw(st.sampled_from(["forward", "backward", "odd-even"])), "seed": draw(st.integers(0, 30000)), "rounds": draw(st.integers(1, 2))}


@part("C08", "long-runs", lambda tier: long_run_case(), quick=100,
      rule="all points (but up to four) of models of 8 to 360 adjoining points updated and written; non-trivial: more than 20 points written")
def c08long(case, rec):
    with bench.bench(case) as b:
        b.open()
        b.add_models()
        b.cd.read_points()
        w = Writer(case, b)
        keys = sorted(k for k in w.tab if k[0] == 0)
        for r in range(case["rounds"]):
            todo = [k for i, k in enumerate(keys) if i not in case["skip"] or r]
            if case["order"] == "backward":
                todo.reverse()
            elif case["order"] == "odd-even":
                todo = todo[::2] + todo[1::2]
            for i, k in enumerate(todo):
                p, a = w.tab[k]
                w.set(k, ("%02x" % ((case["seed"] + i + r) % 250))[:2 * ref.pw(p)] if p["type"] == "string" else (case["seed"] + 7 * i + r) % 32000)
            mark = len(b.dev.log) if b.dev else 0
            no_error(b.cd.models_list[0].write_points, "write %d of %d points" % (r, len(todo)))
            allowed = set()
            for k, v in list(w.pending.items()):
                w.put(k, v)
                allowed |= w.regs_of(k)
            w.pending.clear()
            if b.dev:
                w.check_requests(b.dev.log[mark:], allowed, "write %d" % r)
            w.check_image("after write %d of %d points" % (r, len(todo)))
            w.check_pending("after write %d of %d points" % (r, len(todo)))
        no_error(b.cd.read_points, "final read")
        for j, m in enumerate(case["models"]):
            check_read_state(b.cd.models_list[j], case["defs"][0], m["len"], bytes(w.img)[(b.pos[j][1] + 2 - b.base) * 2:][:2 * m["len"]], "final read: ")
        b.cd.close()
    rec.nontrivial(len(keys) > 20)
    rec.label(case["transport"], case["order"])


@st.composite
def fail_write_case(draw):
    c = draw(write_case(transports=["rtu", "tcp"], nops=6, kinds=["set", "setrun"], minops=2))
    nreq = draw(st.integers(1, 3))
    c["faults"] = []
    for _ in range(nreq):
        at = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3]))
        f = rtu_faults(draw, at) if c["transport"] == "rtu" else tcp_faults(draw, at)
        c["faults"].append(f)
    c["per_point"] = draw(st.integers(0, 4)) == 0
    c["late_sets"] = draw(st.booleans())
    return c


@st.composite
def long_fail_case(draw):
    c = draw(long_run_case())
    c["transport"] = draw(st.sampled_from(["rtu", "tcp"]))
    c["ops"] = []
    n = 0
    d = c["defs"][0]
    for i, o, b in ref.layout(d, c["models"][0]["len"]):
        for p in b["points"]:
            if n not in c["skip"]:
                v = (c["seed"] + 7 * n) % 32000
                c["ops"].append(["set", 0, i, p["id"], ("%02x" % (v % 250))[:2 * ref.pw(p)] if p["type"] == "string" else v])
            n += 1
    if c["order"] == "backward":
        c["ops"].reverse()
    elif c["order"] == "odd-even":
        c["ops"] = c["ops"][::2] + c["ops"][1::2]
    c["faults"] = [(rtu_faults if c["transport"] == "rtu" else tcp_faults)(draw, draw(st.integers(0, 4))) for _ in range(draw(st.integers(1, 3)))]
    c["per_point"] = False
    c["late_sets"] = draw(st.booleans())
    return c


@part("C09", "failed-long-write", lambda tier: long_fail_case(), quick=60,
      rule="the same with models of 8 to 360 points of which all but up to four are updated; non-trivial: a fault hit")
def c09long(case, rec):
    c09(case, rec)


@part("C09", "failed-write", lambda tier: fail_write_case(), quick=600,
      rule="sets of several points, model (or point) write with a fault at its first..fifth request (device exception, silence before or "
           "after execution, late, truncated, closed, corrupt reply), up to 3 failing writes in a row, then a write on the healthy "
           "device; non-trivial: a fault hit")
def c09(case, rec):
    hits = 0
    with bench.bench(case) as b:
        b.open()
        for m, a in b.pos:
            cm = sut.client.ClientModel(b.cd, m["id"], a + 2, m["len"])
            attempt(sut.util.SunSpecError, cm.load, "load")
            b.cd.add_model(cm)
        b.cd.read_points()
        w = Writer(case, b)
        sets = list(case["ops"])
        hold = []
        if case["late_sets"] and len(sets) > 2:
            sets, hold = sets[:-1], sets[-1:]
        for op in sets:
            w.set(tuple(op[1:4]), op[4])
        everset = set()
        for k in w.pending:
            everset |= w.regs_of(k)

        def settle(log, j, what):
            """what may and must be pending after the requests in log, model j"""
            acked = set()
            for r in log:
                f = r["fault"]
                if r.get("applied") and f is None:
                    acked |= set(range(r["addr"], r["addr"] + r["count"]))
            dirty = {k for k, p in all_points(b.cd).items() if p.dirty}
            for k in sorted(w.pending):
                if k[0] != j:
                    if k not in dirty:
                        fail("%s: point %s of another model is not pending any more", what, k)
                    continue
                mine = w.regs_of(k)
                if not mine <= acked and k not in dirty:
                    fail("%s: point %s was not acknowledged but is not pending", what, k)
                # the run of adjoining updated points of its block
                if run_of(k) <= acked and k in dirty:
                    fail("%s: point %s was acknowledged but is still pending", what, k)
            for k in dirty:
                if k not in w.pending:
                    fail("%s: point %s was not updated but is pending", what, k)
            for k in [k for k in w.pending if k not in dirty]:
                w.put(k, w.pending.pop(k))

        def run_of(k):
            regs = set(w.regs_of(k))
            grown = True
            while grown:
                grown = False
                for q in w.pending:
                    if q[:2] == k[:2] and not w.regs_of(q) <= regs:
                        r = w.regs_of(q)
                        if min(r) - 1 in regs or max(r) + 1 in regs:
                            regs |= r
                            grown = True
            return regs

        for n, f in enumerate(case["faults"]):
            for j in range(len(case["models"])):
                if not any(k[0] == j for k in w.pending):
                    continue
                what = "write %d of model %d with fault %r" % (n, j, f)
                b.dev.arm([f])
                mark = len(b.dev.log)
                if case["per_point"]:
                    keys = sorted(k for k in w.pending if k[0] == j)
                    key = keys[0]
                    r, err = attempt(CErr, all_points(b.cd)[key].write, what)
                else:
                    r, err = attempt(CErr, b.cd.models_list[j].write_points, what)
                log = b.dev.log[mark:]
                hit = any(x["fault"] for x in log)
                if hit != (err is not None):
                    fail("%s: %s", what, "the failure was not reported" if hit else "failed without a fault: %s" % err)
                w.check_requests(log, everset, what)
                hits += hit
                b.dev.disarm()
                settle(log, j, what)
                if hit:
                    rec.label(f["kind"])
                    if len(log) > 1:
                        rec.label("not-first-request")
        for op in hold:
            w.set(tuple(op[1:4]), op[4])
            everset |= w.regs_of(tuple(op[1:4]))
        for j in range(len(case["models"])):
            mark = len(b.dev.log)
            allowed = set()
            for k in w.pending:
                if k[0] == j:
                    allowed |= w.regs_of(k)
            no_error(b.cd.models_list[j].write_points, "write of model %d on the healthy device" % j)
            w.check_requests(b.dev.log[mark:], allowed, "write on the healthy device")
            for k in [k for k in w.pending if k[0] == j]:
                w.put(k, w.pending.pop(k))
            w.check_pending("after the write of model %d" % j)
        w.check_image("after the repeated writes")
        eq(b.dev.bad_frames, [], "malformed requests")
        b.cd.close()
    rec.nontrivial(hits > 0)


# --------------------------------------------------------------------------------- C28

def new_contents(draw, c):
    """Other contents for every model."""
    byid = {d["id"]: d for d in c["defs"]}
    return [gen.refill(byid[m["id"]], m["len"], draw, xmlsafe=True) if m["id"] in byid else gen.random_bytes(draw, 2 * m["len"]).hex() for m in c["models"]]


@st.composite
def script_case(draw):
    c = draw(bench.device_case(max_models=5, max_defs=3, fixed_kw=dict(max_points=6), rep_kw=dict(max_points=4), max_rep=3,
                               scale_safe=1 << 46, xmlsafe=True, many=True))
    if len(c["defs"]) > 1 and draw(st.integers(0, 3)) == 0:
        c["defs"][1]["name"] = c["defs"][0]["name"] = draw(st.sampled_from(gen.MODEL_NAMES))
    cand = value_points(c)
    c["sets"] = []
    c["before"] = draw(st.sampled_from([None, None, None, "other", "missing", "broken"]))
    for _ in range(draw(st.integers(0, 4))):
        if cand:
            j, i, pid, p, sf = cand[draw(st.integers(0, len(cand) - 1))]
            c["sets"].append([j, i, pid, draw(st.one_of(st.none(), raw_value(p, sf), raw_value(p, sf))), draw(st.booleans())])
    c["later"] = draw(st.one_of(st.none(), st.lists(st.integers(0, len(c["models"]) - 1), max_size=3))) if c["models"] else None
    if c["later"] is not None:
        c["new"] = new_contents(draw, c)
    return c


def other_definition(d):
    """Another definition of the same id that suits the same devices."""
    pts = [{"id": "Was", "offset": 0, "type": "int16"}] if d["fixed"]["len"] else []
    return {"id": d["id"], "name": d["name"], "len": d["fixed"]["len"], "repeating": None,
            "fixed": {"len": d["fixed"]["len"], "name": None, "points": pts}}


def model_name(case, m):
    for d in case["defs"]:
        if d["id"] == m["id"]:
            return d.get("name") or "model_%d" % d["id"]
    return "model_%d" % m["id"]


def lines_of(text, what, want_points):
    """The text has, per point with a value, one line with its id and value; others none."""
    lines = [l for l in text.split("\n") if l.strip()]
    return lines


@st.composite
def large_script_case(draw):
    c = draw(bench.large_case(scale_safe=1 << 46, registers=6000, xmlsafe=True))
    cand = value_points(c)
    c["sets"] = []
    for _ in range(draw(st.integers(0, 2))):
        if cand:
            j, i, pid, p, sf = cand[draw(st.integers(0, len(cand) - 1))]
            c["sets"].append([j, i, pid, draw(raw_value(p, sf)), draw(st.booleans())])
    c["later"] = draw(st.one_of(st.none(), st.lists(st.integers(0, len(c["models"]) - 1), max_size=3))) if c["models"] else None
    if c["later"] is not None:
        c["new"] = new_contents(draw, c)
    return c


@part("C28", "large", lambda tier: large_script_case(), quick=90,
      rule="devices of up to 50 models or models of up to 300 points as scripting objects; non-trivial: repeated names or a repeating block")
def c28_large(case, rec):
    c28(case, rec)


@part("C28", "attributes", lambda tier: script_case(), quick=450,
      rule="devices of up to 5 models (same definition several times, two definitions of one name, unnamed, unknown) as scripting objects "
           "over RTU/TCP/mapped: attribute lists, items, values, assignments, printing; non-trivial: repeated names or a repeating block")
def c28_usual(case, rec):
    c28(case, rec)


def c28(case, rec):
    byid = {d["id"]: d for d in case["defs"]}
    with bench.bench(case) as b:
        if case.get("before"):
            # the definitions were others, or not there, when a device was opened earlier
            for d in case["defs"]:
                f = os.path.join(b.tmp, ref.smdx_name(d["id"]))
                if case["before"] == "other":
                    b.define(other_definition(d))
                elif case["before"] == "missing":
                    os.unlink(f)
                else:
                    with open(f, "wb") as out:
                        out.write(b"<sunSpecModels><model id='1'")
            a, k = b.client_args()
            old = no_error(lambda: sut.client.SunSpecClientDevice(*a, **k), "construction under earlier definitions")
            no_error(old.read, "read under earlier definitions")
            old.close()
            for d in case["defs"]:
                b.define(d)
            rec.label("before: " + case["before"])
        sd = no_error(b.open_scripting, "construction")
        names, per = [], {}
        for j, m in enumerate(case["models"]):
            n = model_name(case, m)
            if n not in names:
                names.append(n)
            per.setdefault(n, []).append(j)
        eq(list(sd.models), names, "model names")
        objs = {}
        for n in names:
            o = getattr(sd, n)
            eq(sd[n] is o, True, "item %s is the attribute" % n)
            js = per[n]
            if len(js) == 1:
                if isinstance(o, list):
                    fail("single model %s is a list", n)
                objs[js[0]] = o
            else:
                if not isinstance(o, list):
                    fail("%d models named %s are not a list", len(js), n)
                eq(len(o), len(js) + 1, "length of the list of models named %s" % n)
                eq(o[0], None, "first element of the list of models named %s" % n)
                for k, j in enumerate(js):
                    objs[j] = o[k + 1]
        eq(sd["no_such_model"], None, "item of a missing model")
        for j, o in objs.items():
            if o.model is not sd.device.models_list[j]:
                fail("object for model %d (%s) belongs to another model", j, model_name(case, case["models"][j]))
        no_error(sd.read, "read")
        contents = [bytes.fromhex(m["data"]) for m in case["models"]]
        overlay = {}
        check_objects(case, byid, objs, sd, contents, overlay, "after read")
        repeated = any(len(v) > 1 for v in per.values())
        rep = False
        for j, i, pid, raw, item in case["sets"]:
            o = objs[j]
            if i > 0:
                o = o.repeating[i]
                rep = True
            m = case["models"][j]
            vals, sfs = ref.read_values(byid[m["id"]], m["len"], contents[j])
            sf = vals[(i, pid)][1]
            if raw is None:
                # the value it has already
                raw = overlay.get((j, i, pid), vals[(i, pid)][0])
                v = o[pid]
                rec.label("same-value")
            else:
                v = raw * math.pow(10, sf) if sf else raw
            if item:
                o[pid] = v
            else:
                setattr(o, pid, v)
            overlay[(j, i, pid)] = raw
            check_objects(case, byid, objs, sd, contents, overlay, "after setting %s of block %d of model %d" % (pid, i, j))
            pend = sorted(k for k, p in all_points(sd.device).items() if p.dirty)
            eq(pend, sorted(overlay), "pending points")
        image = bytearray(b.img)
        for j, o in objs.items():
            no_error(o.write, "write of model %d" % j)
            for (jj, i, pid), raw in overlay.items():
                if jj == j:
                    m, a = b.pos[j]
                    for bi, off, p in gen.model_points(byid[m["id"]], m["len"]):
                        if bi == i and p["id"] == pid:
                            at = (a + 2 + off - b.base) * 2
                            data = ref.encode(p["type"], raw, ref.pw(p))
                            image[at:at + len(data)] = data
        eq(b.regs(), bytes(image), "device registers after writing the objects")
        for j, o in objs.items():
            no_error(o.read, "read of model %d" % j)
        check_objects(case, byid, objs, sd, contents, overlay, "after write and read")
        if case.get("later") is not None:
            # the device's values change; reading a model object reads that model, reading the device object all of them
            for j in range(len(case["models"])):
                b.set_model_data(j, bytes.fromhex(case["new"][j]))
            for j in case["later"]:
                no_error(objs[j].read, "read of model %d after the device changed" % j)
                contents[j] = bytes.fromhex(case["new"][j])
                overlay = {k: v for k, v in overlay.items() if k[0] != j}
                check_objects(case, byid, objs, sd, contents, overlay, "after the device changed and model %d was read" % j)
            no_error(sd.read, "read after the device changed")
            check_objects(case, byid, objs, sd, [bytes.fromhex(x) for x in case["new"]], {}, "after the device changed and was read")
            rec.label("changed later")
        sd["extra_item"] = 5
        eq(sd["extra_item"], 5, "item set on the device object")
        eq(sd.extra_item, 5, "attribute of an item set on the device object")
        no_error(sd.close, "close")
        rec.nontrivial(repeated or rep or any(len(m.blocks) > 1 for m in sd.device.models_list))
        rec.label("repeated-name" if repeated else "distinct", case["transport"])


def check_objects(case, byid, objs, sd, contents, overlay, what):
    text = ""
    pieces = {}
    for j, m in enumerate(case["models"]):
        o = objs[j]
        n = model_name(case, m)
        eq(o.name, n, what + ": name of model object %d" % j)
        if m["id"] not in byid:
            eq(list(o.points), [], what + ": points of the unknown model")
            eq(len(o.repeating), 1, what + ": repeating blocks of the unknown model")
            pieces[j] = [[]]
            continue
        d = byid[m["id"]]
        vals, sfs = ref.read_values(d, m["len"], contents[j])
        lay = ref.layout(d, m["len"])
        eq(len(o.repeating), len(lay), what + ": length of 'repeating' of model %d" % j)
        eq(o.repeating[0], None, what + ": first element of 'repeating'")
        if len(lay) > 1:
            rn = lay[1][2].get("name") or "repeating"
            eq(o.repeating_name, rn, what + ": repeating name")
            eq(getattr(o, rn) is o.repeating, True, what + ": repeating blocks under their own name %s" % rn)
        pieces[j] = []
        for i, off, blk in lay:
            bo = o if i == 0 else o.repeating[i]
            ids = [p["id"] for p in blk["points"] if ref.is_value_point(p)]
            eq(list(bo.points), ids, what + ": points of block %d of model %d" % (i, j))
            if i:
                eq(bo.block is sd.device.models_list[j].blocks[i], True, what + ": block behind repeating[%d]" % i)
            lines = []
            for p in blk["points"]:
                if not ref.is_value_point(p):
                    continue
                raw, sf = vals[(i, p["id"])]
                raw = overlay.get((j, i, p["id"]), raw)
                want = ref.scaled(raw, sf)
                got = getattr(bo, p["id"])
                close_to(got, want, what + ": attribute %s of block %d of model %d" % (p["id"], i, j))
                eq(bo[p["id"]], got, what + ": item %s of block %d of model %d" % (p["id"], i, j))
                if want is not None:
                    lines.append((p["id"], str(got)))
            pieces[j].append(lines)
        eq(o["no_such_point"], None, what + ": item of a missing point")
    # printing
    for j, o in objs.items():
        check_text(str(o), pieces[j], what + ": text of model object %d" % j)
        for i, bo in enumerate(o.repeating[1:]):
            check_text(str(bo), [pieces[j][i + 1]], what + ": text of repeating block %d of model %d" % (i + 1, j))
    s, at = str(sd), 0
    for n in sd.models:
        o = getattr(sd, n)
        for x in (o[1:] if isinstance(o, list) else [o]):
            k = s.find(str(x), at)
            if k < 0:
                fail("%s: text of the device lacks model %s (or has it out of order): %r", what, n, s)
            at = k + len(str(x))


def check_text(text, blocks, what):
    lines = [l for l in text.split("\n") if l.strip()]
    want = [l for b in blocks for l in b]
    pos = 0
    used = 0
    for l in lines:
        if pos < len(want) and l.strip().startswith(want[pos][0]) and want[pos][1].strip() in l and ":" in l:
            pos += 1
            used += 1
    if pos < len(want):
        fail("%s does not list %r (in order): %r", what, want[pos], text)
    heads = len(lines) - used
    if heads > len(blocks):
        fail("%s lists more than its points with a value: %r; points %r", what, text, want)


# --------------------------------------------------------------------------------- C33

OPS33 = ["construct", "sconstruct", "scan", "read_points", "model_read", "model_write", "point_write", "read", "write", "sread", "close"]


@st.composite
def error_case(draw):
    c = draw(bench.device_case(transports=["rtu", "tcp"], max_models=2, max_defs=1, scale_safe=1 << 46, min_models=1,
                               fixed_kw=dict(max_points=5, min_points=1), rep_kw=dict(max_points=3), max_rep=2))
    c["op"] = draw(st.sampled_from(OPS33))
    kinds = ["wire", "wire", "wire"]
    if c["transport"] == "rtu":
        kinds += ["serial-write", "serial-read", "serial-flush", "open"] + (["serial-close"] * 4 if c["op"] == "close" else [])
    else:
        kinds += ["refused", "ctimeout", "unreachable", "gaierror", "unicode", "send", "recv"]
    c["exc"] = draw(st.sampled_from(["serial", "termios", "os", "type"] if c["transport"] == "rtu" else ["netdown", "reset", "pipe", "timeout"]))
    c["fk"] = draw(st.sampled_from(kinds))
    at = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5, 8]))
    if c["fk"] == "wire":
        c["fault"] = rtu_faults(draw, at) if c["transport"] == "rtu" else tcp_faults(draw, at)
    c["n"] = draw(st.integers(1, 2))
    c["late_base"] = draw(st.booleans())
    c["value"] = draw(st.integers(1, 100))
    return c


@part("C33", "faults", lambda tier: error_case(), quick=800,
      rule="operation (construct, scan, device/model read, model/point write, raw read/write; plain and scripting clients) x fault "
           "(corrupt/late/missing reply at any request, refused/unreachable/timed-out connect, failing send/recv, serial open/read/write/"
           "flush failure) over RTU/TCP, then the same operation on the healthy device; non-trivial: the fault hit")
def c33(case, rec):
    op = case["op"]
    with bench.bench(case) as b:
        w = b.world
        sd = None
        if op in ("construct", "sconstruct"):
            pass
        elif op == "sread":
            sd = b.open_scripting()
        else:
            b.open()
            if op != "scan":
                b.cd.scan()
                b.cd.read_points()
        # ---- fault
        fk = case["fk"]
        key = None
        cand = value_points(case)
        if op in ("model_write", "point_write") and not cand:
            op = "read_points"

        def arm():
            if fk == "wire":
                b.dev.arm([case["fault"]])
            elif fk.startswith("serial-"):
                w.serial_error = {"op": fk[7:], "n": case["n"], "exc": case.get("exc")}
            elif fk == "open":
                w.open_errors["/dev/fake0"] = 1
            elif fk in CONN_KIND:
                w.connect_always = CONN_KIND[fk]
            else:
                w.socket_error = {"op": fk, "n": case["n"], "exc": case.get("exc")}

        def repair():
            b.dev.disarm()
            w.serial_error = w.socket_error = w.connect_always = None
            w.open_errors.clear()

        addr = b.base + 2
        if op in ("model_write", "point_write"):
            wr = Writer(case, b)
            j, i, pid, p, sf = cand[case["value"] % len(cand)]
            key = (j, i, pid)
            t = p["type"]
            raw = {"string": "q", "float32": 2.5, "ipv6addr": "00000001:00000002:00000003:00000004", "eui48": "01:02:03:04:05:06"}.get(t, case["value"] % 100 + 1)
            wr.set(key, raw)
        run = {
            "construct": lambda: b.open(),
            "sconstruct": lambda: b.open_scripting(),
            "scan": lambda: b.cd.scan(),
            "read_points": lambda: b.cd.read_points(),
            "model_read": lambda: [m.read_points() for m in b.cd.models_list],
            "model_write": lambda: b.cd.models_list[key[0]].write_points(),
            "point_write": lambda: all_points(b.cd)[key].write(),
            "read": lambda: b.cd.read(addr, 2),
            "write": lambda: b.cd.write(addr, b.img[4:8]),
            "sread": lambda: sd.read(),
            "close": lambda: b.cd.close(),
        }[op]
        arm()
        mark = len(b.dev.log)
        r, err = attempt(CErr, run, "%s with %s %r" % (op, fk, case.get("fault")))
        hit = any(x["fault"] for x in b.dev.log[mark:])
        if op == "close":
            eq(len(w.open_sockets()) + len(w.open_serials()), 0, "connections and ports open after the close")
        if hit and err is None and op not in ("scan", "sconstruct"):
            fail("%s with %r reported nothing", op, case.get("fault"))
        if op == "close" and fk == "serial-close" and case["n"] == 1 and err is None:
            fail("a close whose port reported a failure reported nothing")
        if fk == "open" and err is None and not w.open_errors.get("/dev/fake0", 1):
            fail("%s with a port that could not be opened reported nothing", op)
        fired = hit or err is not None
        if err is None:
            result(case, b, op, r, key, "%s (fault did not matter)" % op)
        if op in ("construct", "sconstruct"):
            if err is None:
                r.close()
            eq(len(w.open_sockets()), 0, "connections open after the %s" % op)
            eq(len(w.open_serials()), 0, "serial ports open after the %s" % op)
        repair()
        rec.nontrivial(fired)
        rec.label(op, fk if fk != "wire" else case["fault"]["kind"], "error" if err else "no-error", case["transport"])
        # ---- again, on the healthy device
        for again in range(2):
            r = no_error(run, "%s after %s %r was repaired" % (op, fk, case.get("fault")))
            result(case, b, op, r, key, "%s after the fault" % op)
            if op in ("construct", "sconstruct"):
                r.close()
        if op not in ("construct", "sconstruct"):
            b.cd.close()
        eq(len(w.open_sockets()), 0, "connections open at the end")
        eq(len(w.open_serials()), 0, "serial ports open at the end")


def result(case, b, op, r, key, what):
    byid = {d["id"]: d for d in case["defs"]}
    if op == "construct":
        eq(len(r.models_list), 0, what + ": models")
    elif op in ("sconstruct", "scan"):
        cd = r.device if op == "sconstruct" else b.cd
        check_scanned(case, b, cd, what)
    elif op in ("read_points", "model_read", "sread"):
        for j, m in enumerate(case["models"]):
            if m["id"] in byid:
                check_read_state(b.cd.models_list[j], byid[m["id"]], m["len"], b.model_data(j), what + ": ")
    elif op in ("model_write", "point_write"):
        eq(bool(all_points(b.cd)[key].dirty), False, what + ": pending")
        m, a = b.pos[key[0]]
        for i, off, p in gen.model_points(byid[m["id"]], m["len"]):
            if i == key[1] and p["id"] == key[2]:
                got = b.model_data(key[0])[2 * off:2 * off + 2 * ref.pw(p)]
                eq(got, ref.encode(p["type"], all_points(b.cd)[key].value_base, ref.pw(p)), what + ": registers")
    elif op == "read":
        eq(r, b.img[4:8], what + ": data")
    elif op == "write":
        eq(b.regs(), b.img, what + ": registers")


MAP_FAULTS = ["missing", "malformed", "wrong-root", "no-suns", "bad-value", "overlap", "unmapped-read", "unmapped-write", "directory", "none"]


@st.composite
def map_error_case(draw):
    c = draw(bench.device_case(transports=["mapped"], max_models=2, max_defs=1, fixed_kw=dict(max_points=4, min_points=1), rep_kw=dict(max_points=3), max_rep=2))
    c["kind"] = draw(st.sampled_from(MAP_FAULTS))
    c["how"] = draw(st.sampled_from(["plain", "scripting"]))
    c["off"] = draw(st.sampled_from([-1, 0, 1, 1000])) 
    c["n"] = draw(st.integers(1, 5))
    return c


@part("C33", "map", lambda tier: map_error_case(), quick=300,
      rule="mapped devices whose map file is missing, not XML, of another kind, inconsistent, without SunSpec registers, or that are read or "
           "written outside their registers, then with the right map; all non-trivial")
def c33m(case, rec):
    with bench.bench(case) as b:
        good = b.map_xml()
        kind = case["kind"]
        rec.label(kind, case["how"])

        def put(data):
            if os.path.isdir(b.mapfile):
                os.rmdir(b.mapfile)
            with open(b.mapfile, "wb") as f:
                f.write(data)

        make = b.open if case["how"] == "plain" else b.open_scripting
        if kind in ("unmapped-read", "unmapped-write"):
            d = make()
            n = len(b.img) // 2
            a = b.base - 1 if case["off"] == -1 else b.base + n - case["n"] + 1 + case["off"]
            if a < 0:
                a = b.base + n
            cd = b.cd
            if kind == "unmapped-read":
                expect_error(CErr, lambda: cd.read(a, case["n"] + 1), "read of unmapped registers")
            else:
                expect_error(CErr, lambda: cd.write(a, b"\1\2" * (case["n"] + 1)), "write of unmapped registers")
            eq(b.regs(), b.img, "registers afterwards")
            eq(cd.read(b.base, 2), b"SunS", "read afterwards")
            cd.close()
            return
        if kind == "none":
            expect_error(CErr, lambda: sut.client.ClientDevice(sut.client.MAPPED, slave_id=1), "construction without a map")
        else:
            if kind == "missing":
                os.unlink(b.mapfile)
            elif kind == "directory":
                os.unlink(b.mapfile)
                os.mkdir(b.mapfile)
            else:
                put({"malformed": good[:-5], "wrong-root": b"<sunSpecModels/>",
                     "no-suns": b'<mbmap addr="40000"><regs offset="0" len="3" type="u16">5</regs></mbmap>',
                     "bad-value": b'<mbmap addr="40000"><regs offset="0" type="u16">abc</regs></mbmap>',
                     "overlap": b'<mbmap addr="40000"><regs offset="0" type="u32">1</regs><regs offset="1" type="u16">1</regs></mbmap>'}[kind])

            def run():
                d = make()
                if case["how"] == "plain" and kind in ("no-suns", "wrong-root"):
                    d.scan()
            expect_error(CErr, run, "opening a device with map: " + kind)
            put(good)
        d = no_error(make, "construction with the right map")
        if case["how"] == "plain":
            no_error(d.scan, "scan with the right map")
        check_scanned(case, b, b.cd, "afterwards")
        d.close()


@st.composite
def addr_case(draw):
    c = draw(bench.device_case(min_models=1, max_models=3, max_defs=2, fixed_kw=dict(max_points=4, min_points=1),
                               rep_kw=dict(max_points=3), max_rep=2))
    c["k"] = draw(st.integers(0, len(c["models"]) - 1))
    c["over"] = draw(st.sampled_from([0, 0, 1, 2, 3, 100, 1000, "max"]))
    c["how"] = draw(st.sampled_from(["plain", "plain", "scripting"]))
    c["raw"] = draw(st.lists(st.tuples(st.sampled_from(["read", "read", "write"]), st.sampled_from([65536, 65537, 70000, 131072, 105536, -1, -25536, 65535, 65534]),
                                       st.sampled_from([1, 2, 3, 130])), min_size=1, max_size=3))
    return c


@part("C33", "addresses", lambda tier: addr_case(), quick=150,
      rule="devices reporting a model length that puts the next model at or past the last register address (all bases, transports, plain and "
           "scripting), and reads and writes at addresses that do not exist, then the same device with the right length; non-trivial: an "
           "address past 65535 was needed")
def c33a(case, rec):
    c = dict(case, models=[dict(m) for m in case["models"]])
    right, pos = bench.image(case)
    a = pos[case["k"]][1]
    n = min(65535, 65536 - (a + 2)) if case["over"] != "max" else 65535
    if case["over"] not in ("max",):
        n = min(65535, n + case["over"])
    c["models"][case["k"]]["report"] = n
    nxt = a + 2 + n
    with bench.bench(c) as b:
        make = b.open if case["how"] == "plain" else b.open_scripting
        mapped = case["transport"] == "mapped"

        def run():
            d = make()
            if case["how"] == "plain":
                d.scan()
            return d
        if mapped:
            d = no_error(run, "scan of a device whose map ends")
            eq([(m.id, m.addr, m.len) for m in b.cd.models_list[:case["k"]]], [(m["id"], x + 2, m["len"]) for m, x in pos[:case["k"]]], "models")
            eq(len(b.cd.models_list), case["k"] + 1, "number of models")
            eq((b.cd.models_list[-1].id, b.cd.models_list[-1].addr), (case["models"][case["k"]]["id"], a + 2), "last model")
        else:
            expect_error(CErr, run, "scan of a device with a model from %d on of length %d" % (a + 2, n))
            d = b.cd
            if case["how"] == "scripting":
                eq(len(b.world.open_sockets()) + len(b.world.open_serials()), 0, "connections left open")
                d = None
            rec.nontrivial(nxt > 65535)
        rec.label(case["how"], case["transport"], "over-%s" % case["over"])
        # ---- repaired
        b.poke(b.base, right)
        if d is None or mapped:
            if d is not None:
                d.close()
            if mapped:
                with open(b.mapfile, "wb") as f:
                    b.img = right
                    f.write(b.map_xml())
            d = no_error(run, "scan of the repaired device")
        else:
            no_error(d.scan, "scan of the repaired device")
        b.img = right
        check_scanned(case, b, b.cd, "after the repair")
        # ---- raw
        before = b.regs()
        for op, addr, cnt in case["raw"]:
            what = "%s of %d registers at %d" % (op, cnt, addr)
            if op == "read":
                expect_error(CErr, lambda: b.cd.read(addr, cnt), what)
            else:
                expect_error(CErr, lambda: b.cd.write(addr, b"\x55\xaa" * cnt), what)
            rec.nontrivial(addr + cnt > 65536)
            eq(b.regs(), before, "registers after a " + what)
            eq(b.cd.read(b.base, 2), b"SunS", "read after a " + what)
        d.close()
        eq(len(b.world.open_sockets()) + len(b.world.open_serials()), 0, "connections open at the end")
