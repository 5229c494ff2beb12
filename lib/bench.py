"""Puts a generated device behind a transport and opens the client under test on it.

case keys: transport ("rtu"/"tcp"/"mapped"), base, unit, defs [definition], models [{"id","len","data"}],
           pieces [sizes] (how replies are fragmented), end ("id", "id+len", "none")
"""
import contextlib, os, struct
from hypothesis import strategies as st
import fakes, gen, ref, harness
import sut

TRANSPORTS = ["rtu", "tcp", "mapped"]


def image(case):
    """-> (bytes from base on, [(model, address of id)])"""
    out = bytearray(b"SunS")
    pos = []
    for m in case["models"]:
        pos.append((m, case["base"] + len(out) // 2))
        data = bytes.fromhex(m["data"])
        out += struct.pack(">HH", m["id"], m.get("report", m["len"])) + data
    end = case.get("end", "id+len")
    if end != "none":
        out += b"\xff\xff"
    if end == "id+len":
        out += b"\0\0"
    return bytes(out), pos


class Bench(object):
    def __init__(self, case, tmp):
        self.case, self.tmp = case, tmp
        self.transport = case.get("transport", "mapped")
        self.base = case.get("base", 40000)
        self.unit = case.get("unit", 1)
        self.world = fakes.world()
        self.world.pieces = fakes.Pieces(case.get("pieces"))
        self.defs = {d["id"]: d for d in case["defs"]}
        for d in case["defs"]:
            self.define(d)
        self.img, self.pos = image(case)
        self.dev = None
        self.cd = None
        if self.transport == "mapped":
            self.mapfile = os.path.join(tmp, "map.xml")
            with open(self.mapfile, "wb") as f:
                f.write(self.map_xml())
        else:
            self.dev = fakes.Device(unit=self.unit)
            self.dev.load(self.base, self.img)
            self.dev.missing = case.get("missing", "exception")
            for o, h in case.get("more", []):
                self.dev.load(self.base + o, bytes.fromhex(h))
            for a, h in case.get("decoys", []):
                self.dev.load(a, bytes.fromhex(h))
            self.world.ports["/dev/fake0"] = [self.dev]
            self.world.hosts[("10.0.0.9", 502)] = [self.dev]

    def define(self, d):
        with open(os.path.join(self.tmp, ref.smdx_name(d["id"])), "wb") as f:
            f.write(ref.smdx_xml(d))

    def map_xml(self):
        case = self.case
        blocks = [(self.base, self.img)] + [(self.base + o, bytes.fromhex(h)) for o, h in case.get("more", [])]
        blocks = sorted(blocks + [(a, bytes.fromhex(h)) for a, h in case.get("decoys", [])])
        first = blocks[0][0]
        return ref.mbmap_xml(first, [(a - first, d) for a, d in blocks])

    def client_args(self):
        if self.transport == "mapped":
            return (sut.client.MAPPED,), dict(slave_id=self.unit, name=self.mapfile)
        if self.transport == "rtu":
            return (sut.client.RTU,), dict(slave_id=self.unit, name="/dev/fake0")
        return (sut.client.TCP,), dict(slave_id=self.unit, ipaddr="10.0.0.9", ipport=502)

    def open(self, **kw):
        a, k = self.client_args()
        k.update(kw)
        self.cd = sut.client.ClientDevice(*a, **k)
        if self.case.get("top"):
            self.cd.base_addr = self.base
        return self.cd

    def open_scripting(self, **kw):
        a, k = self.client_args()
        k.update(kw)
        self.sd = sut.client.SunSpecClientDevice(*a, **k)
        self.cd = self.sd.device
        return self.sd

    def add_models(self, keep_scan=False):
        """The chain's models as client models, loaded without scanning."""
        out = []
        for m, a in self.pos:
            cm = sut.client.ClientModel(self.cd, m["id"], a + 2, m["len"])
            cm.load()
            self.cd.add_model(cm)
            out.append(cm)
        return out

    # ---- what the device holds
    def map(self):
        return self.cd.modbus_device.modbus_map

    def regs(self):
        n = len(self.img) // 2
        if self.dev is not None:
            return self.dev.get(self.base, n)
        return self.map().read(self.base, n)

    def poke(self, addr, data):
        if self.dev is not None:
            self.dev.load(addr, data)
        else:
            self.map().write(addr, data)

    def model_data(self, k):
        m, a = self.pos[k]
        img = self.regs()
        o = (a + 2 - self.base) * 2
        return img[o:o + 2 * m["len"]]

    def set_model_data(self, k, data):
        m, a = self.pos[k]
        if data:
            self.poke(a + 2, data)


@contextlib.contextmanager
def bench(case):
    with harness.scratch() as tmp:
        sut.device.file_pathlist = sut.util.PathList([tmp])
        b = Bench(case, tmp)
        try:
            yield b
        finally:
            sut.device.file_pathlist = None


@st.composite
def device_case(draw, transports=TRANSPORTS, min_models=1, max_models=3, bases=(40000, 0, 50000), max_rep=4,
                unknown=True, fixed_kw=None, rep_kw=None, xmlsafe=False, scale_safe=None, repeating=None,
                extra=True, max_defs=2, mids=None, names=True, sf_ok=True, min_rep=0, many=False):
    ndefs = draw(st.integers(1, max_defs))
    defs = []
    for i in range(ndefs):
        mid = draw(mids if mids is not None else st.one_of(st.integers(2, 300), st.integers(2, 65000)))
        while mid in [d["id"] for d in defs] or mid in (60001, 60002):
            mid += 1
        defs.append(draw(gen.definition(mid=mid, fixed_kw=fixed_kw, rep_kw=rep_kw, repeating=repeating, names=names,
                                        sf_ok=sf_ok)))
    models = []
    for i in range(draw(st.integers(min_models, max_models))):
        k = draw(st.integers(0, ndefs if unknown else ndefs - 1))
        if k == ndefs:
            n = draw(st.sampled_from([0, 1, 2, 5, 30]))
            models.append({"id": draw(st.sampled_from([60001, 60002])), "len": n, "data": (b"\x11\x22" * n).hex()})
        else:
            models.append(draw(gen.model_image(defs[k], max_rep=max_rep, extra=extra, xmlsafe=xmlsafe,
                                               scale_safe=scale_safe, min_rep=min_rep, many=many)))
    return {"transport": draw(st.sampled_from(transports)), "base": draw(st.sampled_from(bases)), "unit": draw(st.sampled_from([1, 2, 126, 247])),
            "defs": defs, "models": models, "pieces": draw(pieces()), "end": "id+len"}


@st.composite
def large_case(draw, what=("models", "kinds", "points"), registers=20000, transports=TRANSPORTS, xmlsafe=False, scale_safe=None, **kw):
    """A device of many models, of many kinds of models, or of models of many points."""
    w = draw(st.sampled_from(what))
    if w == "kinds":
        case = draw(device_case(transports=transports, xmlsafe=xmlsafe, scale_safe=scale_safe, max_models=4, max_rep=2, unknown=False,
                                fixed_kw=dict(max_points=4, max_str=6), rep_kw=dict(max_points=3, max_str=6), **kw))
        models, defs = list(case["models"]), list(case["defs"])
        blob, step = draw(st.binary(min_size=30, max_size=61)), draw(st.sampled_from([1, 2, 97, 997, 7919]))
        for k in range(draw(st.sampled_from([7, 12, 20, 35]))):
            m = dict(models[k % len(models)])
            d = [d for d in case["defs"] if d["id"] == m["id"]][0]
            mid = (d["id"] + step * (k + 1)) % 65000
            while mid < 2 or mid in (60001, 60002) or mid in [x["id"] for x in defs]:
                mid += 1
            d = dict(d, id=mid, name=None if k % 3 else "kind%d" % k)
            m.update(id=mid, data=gen.fill_model(d, m["len"], gen.stir(blob, k), filler=k % 4, xmlsafe=xmlsafe, scale_safe=scale_safe).hex())
            defs.append(d)
            case["models"].append(m)
        case["defs"] = defs
    elif w == "models":
        case = draw(device_case(transports=transports, xmlsafe=xmlsafe, scale_safe=scale_safe, max_models=4, max_rep=2,
                                fixed_kw=dict(max_points=4, max_str=6), rep_kw=dict(max_points=3, max_str=6), **kw))
        n = draw(st.sampled_from([24, 9, 13, 10, 17, 6, 33, 50, 40]))
        first, blob = list(case["models"]), draw(st.binary(min_size=30, max_size=61))
        pick = draw(st.lists(st.integers(0, len(first) - 1), min_size=1, max_size=6))
        while len(case["models"]) < n:
            k = len(case["models"])
            m = dict(first[pick[k % len(pick)]])
            d = [d for d in case["defs"] if d["id"] == m["id"]]
            if d:
                m["data"] = gen.fill_model(d[0], m["len"], gen.stir(blob, k), filler=k % 4, xmlsafe=xmlsafe, scale_safe=scale_safe).hex()
            case["models"].append(m)
    else:
        case = draw(device_case(transports=transports, max_models=1, max_defs=1, unknown=False, fixed_kw=dict(max_points=1), **kw))
        d = draw(gen.large_definition(mid=case["defs"][0]["id"], **draw(st.sampled_from([{}, {}, {"max_points": 31, "max_str": 150}]))))
        case["defs"], case["models"] = [d], []
        blob = draw(st.binary(min_size=60, max_size=211))
        for k in range(draw(st.integers(1, 2))):
            n = d["fixed"]["len"] + (d["repeating"]["len"] * draw(st.integers(0, 3)) if d["repeating"] else 0)
            case["models"].append({"id": d["id"], "len": n, "data": gen.fill_model(
                d, n, gen.stir(blob, k), filler=k, xmlsafe=xmlsafe, scale_safe=scale_safe).hex()})
    while case["base"] + sum(m["len"] + 2 for m in case["models"]) + 4 > min(65536, case["base"] + registers):
        case["models"].pop()
    return case


def at_top(case):
    """The same map at the very end of the address space (a base address the client has to be told)."""
    case["base"] = 0
    case["base"] = 65536 - len(image(case)[0]) // 2
    case["top"] = True
    return case


def pieces():
    return st.one_of(st.just([]), st.lists(st.integers(1, 9), min_size=1, max_size=6),
                     st.lists(st.integers(1, 300), min_size=1, max_size=4))
