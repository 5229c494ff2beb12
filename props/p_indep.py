"""C35: what one device or document does never shows in another."""
import os, struct, threading
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
import bench, fakes, gen, harness, ref, sut
from harness import part, eq, fail
from props import p_misc, p_device
from props.p_client import value_points, raw_value
from props.p_modbus import make_device, payload, rtu_faults, tcp_faults

CErr = sut.client.SunSpecClientError
KINDS = ["client", "client", "client", "scripting", "scripting", "modbus", "map", "pics", "record"]
POINT_KW = dict(max_points=7, types=["int16", "int16", "uint16", "uint32", "int32", "acc32", "enum16", "bitfield32", "string", "uint64", "float32", "sunssf"])


@st.composite
def case_(draw):
    c0 = draw(bench.device_case(transports=["mapped"], bases=[40000], max_models=1, max_defs=2, unknown=False, fixed_kw=POINT_KW,
                                rep_kw=dict(POINT_KW, max_points=4), max_rep=3, scale_safe=1 << 46, xmlsafe=True, extra=False))
    defs = c0["defs"]
    actors = []
    units = list(range(1, 9))
    one_port = draw(st.integers(0, 2)) == 0          # everything on one serial port, with more failures
    one_file = not one_port and draw(st.integers(0, 4)) == 0        # all of one map file
    for n in range(draw(st.integers(2, 4))):
        k = draw(st.sampled_from(["client", "client", "scripting"] if one_file else KINDS if not one_port else ["client", "scripting", "modbus", "modbus", "modbus"]))
        a = {"kind": k, "unit": units.pop(draw(st.integers(0, len(units) - 1)))}
        if k == "record":
            a["record"] = draw(p_misc.record_case())
            a["ops"] = []
            for i, d in enumerate(a["record"]["devices"]):
                a["ops"].append(["device", i])
                a["ops"] += [["model", i, j] for j in range(len(d["models"]))]
            a["ops"] += [["text"], ["read"], ["text"]]
            actors.append(a)
            continue
        if k == "modbus":
            a["transport"] = "rtu" if one_port else draw(st.sampled_from(["rtu", "rtu", "tcp"]))
            a["max"] = draw(st.sampled_from([125, 5]))
            faults = rtu_faults if a["transport"] == "rtu" else tcp_faults
            a["ops"] = []
            for _ in range(draw(st.integers(1, 5))):
                if draw(st.integers(0, 1 if one_port else 3)) == 0:
                    f = draw(st.sampled_from([{"at": 0, "kind": "silence"}, None])) or faults(draw, 0)
                    if f["kind"] != "late":
                        a["ops"].append(["fault", f])
                a["ops"].append([draw(st.sampled_from(["r", "r", "w"])), draw(st.integers(0, 20)), draw(st.integers(1, 20)), draw(st.integers(0, 9))])
        elif k == "map":
            a["regs"] = draw(st.sampled_from([40, 40, 21, 3]))
            a["ops"] = [[draw(st.sampled_from(["r", "r", "w", "xml"])), draw(st.integers(0, 20)), draw(st.integers(1, 20)), draw(st.integers(0, 9))]
                        for _ in range(draw(st.integers(1, 5)))]
        else:
            a["transport"] = "rtu" if one_port else draw(st.sampled_from(bench.TRANSPORTS))
            same = [x for x in actors if x.get("models") is not None]
            models = [draw(gen.model_image(defs[draw(st.integers(0, len(defs) - 1))], max_rep=3, scale_safe=1 << 46, xmlsafe=True))
                      for _ in range(draw(st.integers(1, 2)))]
            if draw(st.integers(0, 4)) == 0:
                models.append({"id": 60001, "len": 3, "data": "112233445566"})
            a["base"] = 40000 if k == "pics" else draw(st.sampled_from([40000, 40000, 0, 50000]))
            a["later"] = draw(st.booleans())        # another map at the addresses tried later
            if same and draw(st.integers(0, 1)) == 0:       # a device like another one; if mapped or PICS, from the same file
                x = same[draw(st.integers(0, len(same) - 1))]
                models = x["models"]
                a["transport"] = "rtu" if one_port else draw(st.sampled_from([a["transport"], x["transport"], x["transport"]]))
                if k != "pics" and draw(st.booleans()):
                    a["base"], a["later"] = x["base"], x["later"]
            a["models"] = models
            a["sid"] = draw(st.sampled_from([1, 1, 2]))        # of a mapped device
            if one_file:
                a["transport"], a["sid"] = "mapped", 1
                a.update((x, actors[0][x]) for x in (("models", "base", "later") if actors else ()))
                models = a["models"]
            cand = value_points({"defs": defs, "models": models})
            a["ops"] = []
            for _ in range(draw(st.integers(2, 7))):
                o = draw(st.sampled_from(["set", "set", "write", "write", "read", "reopen"] if one_file else
                                         ["set", "set", "read", "write", "poke", "text", "fault", "rescan", "reopen"] if k != "pics" else ["set", "set", "text"]))
                if o == "set" and cand:
                    j, i, pid, p, sf = cand[draw(st.integers(0, len(cand) - 1))]
                    v = draw(raw_value(p, sf))
                    if p["type"] == "string":
                        v = "".join(x for x in v if x.isalnum()) or "x"
                    a["ops"].append(["set", j, i, pid, v])
                elif o == "write":
                    a["ops"].append(["write", draw(st.integers(0, len(models) - 1))])
                elif o == "poke":
                    a["ops"].append(["poke", draw(st.integers(0, len(models) - 1)), draw(st.integers(0, 60)), draw(st.integers(0, 0xffff))])
                elif o == "fault" and a["transport"] != "mapped":
                    f = (rtu_faults if a["transport"] == "rtu" else tcp_faults)(draw, draw(st.integers(0, 2)))
                    if f["kind"] != "late":
                        a["ops"].append(["fault", f])
                elif o in ("read", "text", "rescan", "reopen"):
                    a["ops"].append([o])
        actors.append(a)
    return {"defs": defs, "actors": actors, "schedule": draw(st.lists(st.integers(0, 11), min_size=4, max_size=28)),
            "ports": ["/dev/ttyS0"] if one_port else draw(st.sampled_from([["/dev/ttyS0"], ["/dev/ttyS0"], ["/dev/ttyS0", "/dev/ttyS1"]])),
            "hosts": draw(st.sampled_from([["10.0.0.1"], ["10.0.0.1", "10.0.0.2"]]))}


def value(p):
    try:
        return repr(p.value)
    except OverflowError:         # a scale factor far out of range
        return "out of range"


def point_state(model):
    out = []
    for b in model.blocks:
        for pid, p in list(b.points.items()) + list(b.points_sf.items()):
            out.append((b.index, pid, p.addr, repr(p.value_base), repr(p.value_sf), value(p), bool(p.dirty), bool(p.impl)))
    return sorted(out)


OTHER = b"SunS" + struct.pack(">HHHHH", 60002, 1, 5, 0xffff, 0)


class Actor(object):
    def __init__(self, case, n, tmp):
        self.case, self.n, self.a, self.tmp = case, n, case["actors"][n], tmp
        self.obs = []
        self.i = 0
        self.obj = None
        self.dev = None
        self.img = None
        a = self.a
        k = a["kind"]
        w = fakes.world()
        self.unit = a["unit"]
        self.port = case["ports"][self.unit % len(case["ports"])]
        self.host = case["hosts"][self.unit % len(case["hosts"])]
        if k in ("client", "scripting", "pics"):
            self.img, self.pos = bench.image({"base": a["base"], "models": a["models"]})
        if k in ("client", "scripting", "modbus") and a["transport"] != "mapped":
            self.dev = make_device(self.unit, 0, 60, self.unit) if k == "modbus" else fakes.Device(unit=self.unit)
            if self.img:
                for x in self.later():
                    self.dev.load(x, OTHER)
                self.dev.load(a["base"], self.img)
            if a["transport"] == "rtu":
                w.ports.setdefault(self.port, []).append(self.dev)
            else:
                w.hosts.setdefault((self.host, 502), []).append(self.dev)
        if k in ("client", "scripting") and a["transport"] == "mapped":
            self.file = os.path.join(tmp, "map%d.xml" % self.like())
            with open(self.file, "wb") as f:
                blocks = sorted([(a["base"], self.img)] + [(x, OTHER) for x in self.later()])
                f.write(ref.mbmap_xml(blocks[0][0], [(x - blocks[0][0], b) for x, b in blocks]))
        if k == "map":
            self.file = os.path.join(tmp, "mm%d.xml" % a["regs"])
            with open(self.file, "wb") as f:
                f.write(ref.mbmap_xml(100, [(0, payload(5, a["regs"])), (a["regs"] + 3, payload(9, 4))]))
        if k == "pics":
            self.file = os.path.join(tmp, "pics%d.xml" % self.like())
            root = p_device.pics_root(p_device.pics_device({"defs": case["defs"], "models": a["models"]}))
            with open(self.file, "wb") as f:
                f.write(ET.tostring(root))
        self.steps = [["open"]] + a["ops"] + [["final"], ["close"]]

    def like(self):
        return [[x.get(k) for k in ("models", "base", "later")] == [self.a[k] for k in ("models", "base", "later")]
                for x in self.case["actors"]].index(True)

    def later(self):
        if not self.a["later"]:
            return []
        return {40000: [0, 50000], 0: [50000], 50000: []}[self.a["base"]] if len(self.img) < 20000 else []

    def done(self):
        return self.i >= len(self.steps)

    def step(self):
        op = self.steps[self.i]
        self.i += 1
        mark = len(self.dev.log) if self.dev else 0
        try:
            r = self.do(op)
        except (harness.Violation, harness.HarnessError, fakes.Budget):
            raise
        except Exception as e:
            r = "%s: %s" % (type(e).__name__, str(e).replace(self.tmp, ""))
        if self.dev and op[0] != "fault":
            self.dev.disarm()
        log = [(x["func"], x["addr"], x["count"], bytes(x["data"] or b"").hex()) for x in self.dev.log[mark:]] if self.dev else None
        self.obs.append((op, r, log, self.state()))

    # ---- what can be seen of it
    def state(self):
        k = self.a["kind"]
        if self.obj is None:
            return None
        if k in ("client", "scripting", "pics"):
            d = self.obj.device if k == "scripting" else self.obj
            out = [(m.id, m.len, m.addr, m.index, m.load_error and str(m.load_error).replace(self.tmp, ""), point_state(m)) for m in d.models_list]
            if k == "scripting":
                try:
                    out.append((list(self.obj.models), str(self.obj)))
                except OverflowError:
                    out.append("out of range")
            if self.dev:
                out.append(self.dev.get(self.a["base"], len(self.img) // 2).hex())
            return out
        if k == "modbus":
            return self.dev.get(0, 60).hex()
        return None

    def connect(self):
        a, k = self.a, self.a["kind"]
        if k == "modbus":
            if a["transport"] == "rtu":
                return sut.modbus.ModbusClientDeviceRTU(self.unit, self.port, max_count=a["max"])
            return sut.modbus.ModbusClientDeviceTCP(self.unit, self.host, 502, max_count=a["max"])
        t = a["transport"]
        args = {"rtu": sut.client.RTU, "tcp": sut.client.TCP, "mapped": sut.client.MAPPED}[t]
        kw = dict(slave_id=self.unit)
        if t == "mapped":
            kw["name"] = self.file
            kw["slave_id"] = a.get("sid", self.unit)
        elif t == "rtu":
            kw["name"] = self.port
        else:
            kw.update(ipaddr=self.host, ipport=502)
        if k == "scripting":
            return sut.client.SunSpecClientDevice(args, **kw)
        cd = sut.client.ClientDevice(args, **kw)
        try:
            cd.scan()
        except Exception:
            cd.close()
            raise
        return cd

    def point(self, j, i, pid):
        d = self.obj.device if self.a["kind"] == "scripting" else self.obj
        b = d.models_list[j].blocks[i]
        return b.points[pid] if pid in b.points else b.points_sf[pid]

    def do(self, op):
        a, k, o = self.a, self.a["kind"], op[0]
        if k == "record":
            if o == "open":
                self.obj = p_misc.SD()
            elif o == "device":
                d = a["record"]["devices"][op[1]]
                self.obj.device_add(**{x: v for x, v in d.items() if x in p_misc.DEV + ["timestamp"]})
            elif o == "model":
                m = a["record"]["devices"][op[1]]["models"][op[2]]
                mm = self.obj.device_data[op[1]].model_add(**{x: v for x, v in m.items() if x != "points"})
                for p in m["points"]:
                    mm.point_add(**p)
            elif o == "text":
                return self.obj.to_xml_str()
            elif o == "read":
                self.obj = p_misc.SD(data_record=self.obj.to_xml_str())
            elif o == "final":
                return repr(p_misc.objects(self.obj))
            return None
        if k == "map":
            if o == "open":
                self.obj = sut.mbmap.ModbusMap()
                self.obj.from_xml(self.file)
            elif o in ("r", "final"):
                off, n = op[1:3] if o == "r" else (0, a["regs"])
                return self.obj.read(100 + off, n).hex()
            elif o == "w":
                self.obj.write(100 + op[1], payload(op[3], op[2]))
            elif o == "xml":
                path = os.path.join(self.tmp, "out%d.xml" % self.n)
                self.obj.to_xml(path)
                with open(path, "rb") as f:
                    return f.read().decode()
            return None
        if k == "pics":
            if o == "open":
                self.obj = sut.device.Device()
                self.obj.from_pics(filename=self.file)
            elif o == "set":
                p = self.point(*op[1:4])
                sf = p.value_sf
                p.value = op[4] * 10.0 ** sf if sf else op[4]
            elif o in ("text", "final"):
                root = ET.Element("x")
                self.obj.to_pics(root)
                return ET.tostring(root).decode()
            return None
        if o == "open":
            self.obj = self.connect()
        elif o == "close":
            if self.obj is not None:
                self.obj.close()
        elif self.obj is None:
            return "nothing open"
        elif o == "reopen":
            self.obj.close()
            self.obj = None
            self.obj = self.connect()
        elif o == "fault":
            self.dev.arm([op[1]])
        elif k == "modbus":
            if o == "w":
                self.obj.write(op[1], payload(op[3], op[2]))
            else:
                off, n = op[1:3] if o == "r" else (0, 9)
                return self.obj.read(off, n).hex()
        else:
            d = self.obj.device if k == "scripting" else self.obj
            if o in ("read", "final"):
                for m in d.models_list:
                    m.read_points()
            elif o == "set":
                p = self.point(*op[1:4])
                if p.value_base is None:
                    return "not there"
                sf = p.value_sf
                p.value = op[4] * 10.0 ** sf if sf else op[4]
            elif o == "write":
                d.models_list[op[1]].write_points()
            elif o == "rescan":
                d.scan()
            elif o == "poke":
                m, addr = self.pos[op[1]]
                if m["len"] and m["id"] != 60001:
                    x = addr + 2 + op[2] % m["len"]
                    if self.dev:
                        self.dev.load(x, struct.pack(">H", op[3]))
        return None


def interleave(actors, schedule):
    left = list(actors)
    order = []
    s = list(schedule)
    while left:
        x = left[(s.pop(0) if s else 0) % len(left)]
        x.step()
        order.append(x.n)
        if x.done():
            left.remove(x)
    return order


class Threads(object):
    """The actors as threads of which one runs at a time; every use of a line to a device lets another one run."""

    def __init__(self, actors, schedule):
        self.s, self.order, self.error, self.over = list(schedule), [], None, False
        self.left = list(actors)
        self.sem = {a.n: threading.Semaphore(0) for a in actors}
        self.main = threading.Semaphore(0)
        self.now = None
        self.switches = 0
        threads = [threading.Thread(target=self.body, args=(a,), daemon=True) for a in actors]
        for t in threads:
            t.start()
        fakes.world().on_io = self.turn
        try:
            self.pass_on()
            self.main.acquire()
        finally:
            self.over = True
            fakes.world().on_io = None
            for x in self.sem.values():
                x.release()
        for t in threads:
            t.join()
        if self.error is not None:
            raise self.error

    def pass_on(self):
        if not self.left or self.error is not None:
            self.main.release()
            return
        k = self.s.pop(0) if self.s else self.switches
        self.switches += 1
        self.now = self.left[k % len(self.left)]
        self.sem[self.now.n].release()

    def turn(self):
        me = self.now
        if self.over:
            raise fakes.Budget()
        self.order.append(me.n)
        self.pass_on()
        self.sem[me.n].acquire()
        if self.over:
            raise fakes.Budget()

    def body(self, a):
        self.sem[a.n].acquire()
        try:
            while not a.done() and not self.over:
                a.step()
                self.turn()
        except fakes.Budget as e:
            if self.error is None and not self.over:
                self.error = e
        except BaseException as e:
            if self.error is None:
                self.error = e
        if a in self.left:
            self.left.remove(a)
        if not self.over:
            self.pass_on()


@st.composite
def thread_case(draw):
    c = draw(case_())
    # what happens on one serial port is for one thread only
    c["ports"] = ["/dev/ttyS%d" % i for i in range(9)]
    c["schedule"] = draw(st.lists(st.integers(0, 11), min_size=10, max_size=60))
    c["threads"] = True
    return c


@part("C35", "threads", lambda tier: thread_case(), quick=250,
      rule="the same actors, those over RTU each with a port of its own, run in threads that change over whenever a device is connected to, "
           "written to or waited for, under a generated schedule; non-trivial: an operation is interrupted by another actor")
def threads(case, rec):
    independent(case, rec)


@part("C35", "interleaved", lambda tier: case_(), quick=700,
      rule="2..4 actors (client and scripting devices over RTU/TCP/mapped sharing definitions, ports and hosts, Modbus devices, maps, PICS "
           "devices, data records), each doing up to 7 operations, some with faults; each alone in a fresh process state and then all of "
           "them interleaved; non-trivial: an actor is interrupted by another")
def independent(case, rec):
    runs = []
    order = []
    for mode in range(len(case["actors"]) + 1):
        sut.reset()
        with harness.scratch() as tmp:
            sut.device.file_pathlist = sut.util.PathList([tmp])
            for d in case["defs"]:
                with open(os.path.join(tmp, ref.smdx_name(d["id"])), "wb") as f:
                    f.write(ref.smdx_xml(d))
            # all devices are there in every run; only the clients differ
            actors = [Actor(case, n, tmp) for n in range(len(case["actors"]))]
            try:
                if mode < len(actors):
                    interleave([actors[mode]], [])
                    runs.append(actors[mode].obs)
                else:
                    order = Threads(actors, case["schedule"]).order if case.get("threads") else interleave(actors, case["schedule"])
                    for x, alone in zip(actors, runs):
                        for s, (got, want) in enumerate(zip(x.obs, alone)):
                            for what, g, w in zip(("operation", "result", "requests", "state"), got, want):
                                eq(g, w, "%s of step %d %r of %s %d among others (order %s), compared with the same alone" % (what, s, got[0], x.a["kind"], x.n, order))
                    w = fakes.world()
                    eq(len(w.open_sockets()) + len(w.open_serials()), 0, "connections and ports left open when all are closed")
            finally:
                sut.device.file_pathlist = None
    for alone in runs:
        for op, r, log, state in alone:
            rec.label("step failed" if isinstance(r, str) and "Error" in r[:30] else "step done")
    rec.nontrivial(any(order[i] == order[j] and order[i] != order[i + 1] for i in range(len(order) - 2) for j in range(i + 2, len(order))))
    kinds = [a["kind"] for a in case["actors"]]
    rec.label(*sorted(set(kinds)))
    dev = [a for a in case["actors"] if a.get("transport") == "rtu"]
    if len(dev) > 1:
        rec.label("rtu-2+")
    if any(o[0] == "fault" for a in case["actors"] for o in a["ops"]):
        rec.label("fault")
