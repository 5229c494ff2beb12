"""C32: the suns command."""
import contextlib, io, os, runpy, subprocess, sys
from hypothesis import strategies as st
import bench, fakes, gen, harness, ref, sut
from harness import part, fail, eq, scratch

SCRIPT = os.path.join(harness.REPO, "scripts", "suns.py")
LABELS = ["Watts", "AC Current (total)", "W", "Label: x", "100%", "%s %d", "V\u00e9rit\u00e9", "a   b", "(9)", "A label of more than forty characters, as some are (total)"]
UNITS = ["W", "A", "% Max", "kWh", "\u00b0C", "%d", "kilowatthours per day", "cos()", "W:m"]


def run_tool(argv, tmp):
    """-> (exit status, standard output) of the script run in this process"""
    out = io.StringIO()
    old, cwd = sys.argv, os.getcwd()
    sys.argv = ["suns.py"] + argv
    status = 0
    os.chdir(tmp)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                runpy.run_path(SCRIPT, run_name="__main__")
            except SystemExit as e:
                status = 0 if e.code is None else e.code
            except fakes.Budget:
                raise
            except Exception as e:
                import traceback
                fail("the tool ends with %s (%s)\n%s", type(e).__name__, e, traceback.format_exc())
    finally:
        sys.argv = old
        os.chdir(cwd)
    return status, out.getvalue()


def run_process(argv, tmp):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=harness.REPO, PYTHONIOENCODING="utf-8", PYTHONDONTWRITEBYTECODE="1")
    site = os.path.dirname(os.path.dirname(sut.serial.__file__)) if getattr(sut.serial, "__file__", None) else ""
    if site:
        env["PYTHONPATH"] += os.pathsep + site
    r = subprocess.run([sys.executable, SCRIPT] + argv, cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if b"Traceback" in r.stderr:
        fail("the tool ends with a traceback (status %d)\n%s", r.returncode, r.stderr.decode("utf-8", "replace"))
    return r.returncode, r.stdout.decode("utf-8")


# --------------------------------------------------------------------------------- reference

def want_listing(case):
    """[(heading, [(block index, label or None, id, type, value, units)])] in device order"""
    defs = {d["id"]: d for d in case["defs"]}
    out = []
    for m in case["models"]:
        d = defs.get(m["id"])
        lines = []
        label = d.get("label") if d else None
        head = "model: %s (%d)" % (label, m["id"]) if label else "model: (%d)" % m["id"]
        if d:
            data = bytes.fromhex(m["data"])
            vals, _ = ref.read_values(d, m["len"], data)
            for i, o, b in ref.layout(d, m["len"]):
                for p in b["points"]:
                    if not ref.is_value_point(p):
                        continue
                    raw, sf = vals[(i, p["id"])]
                    if raw is None:
                        continue
                    v = ref.scaled(raw, sf)
                    lines.append((i, p.get("label"), p["id"], p["type"], v, p.get("units")))
        out.append((head, lines))
    return out


def norm(s):
    return " ".join(s.split())


def check_value(got, ptype, v, what):
    if ptype == "bitfield16":
        return eq(got, "0x%04x" % v, what)
    if ptype == "bitfield32":
        return eq(got, "0x%08x" % v, what)
    if isinstance(v, str):
        return eq(got, norm(v.rstrip("\0")), what)
    try:
        n = float(got) if isinstance(v, float) else int(got)
    except ValueError:
        fail("%s: %r is not the number %r", what, got, v)
    harness.close_to(n, v, what)


def check_listing(text, case):
    lines = [norm(l) for l in text.split("\n")]
    lines = [l for l in lines if l]
    if not lines or not lines[0].startswith("Timestamp:"):
        fail("the output does not start with the time stamp: %r", lines[:3])
    pos = 1
    for head, pts in want_listing(case):
        if pos >= len(lines):
            fail("the output ends before %r", head)
        eq(lines[pos], norm(head), "heading of a model")
        pos += 1
        for i, label, pid, ptype, v, units in pts:
            what = "model %s block %d point %s" % (head, i, pid)
            if pos >= len(lines):
                fail("the output ends before %s", what)
            pre = norm("%s%s(%s):" % ("%02d:" % i if i else "", label + " " if label else "", pid))
            post = norm(units or "")
            l = lines[pos]
            pos += 1
            if not (l + " ").startswith(pre + " "):
                fail("%s: line %r does not start with %r", what, l, pre)
            rest = l[len(pre):].strip()
            if post:
                if not (" " + rest).endswith(" " + post):
                    fail("%s: line %r does not end with the units %r", what, l, post)
                rest = rest[:len(rest) - len(post)].strip()
            check_value(rest, ptype, v, what)
    if pos != len(lines):
        fail("lines that belong to no model or point: %r", lines[pos:pos + 5])


# ------------------------------------------------------------------------------------ listing

@st.composite
def listing_case(draw, transports):
    c = draw(bench.device_case(transports=transports, xmlsafe=True, max_models=4, max_rep=draw(st.sampled_from([2, 4, 12])), many=True))
    for d in c["defs"]:
        if draw(st.booleans()):
            d["label"] = draw(st.sampled_from(LABELS))
        ids = [p["id"] for k in ("fixed", "repeating") if d[k] for p in d[k]["points"]]
        for kind in ("fixed", "repeating"):
            for p in (d[kind]["points"] if d[kind] else []):
                # the texts of points are given by point id alone
                if draw(st.integers(0, 2)) == 0 and ids.count(p["id"]) == 1:
                    p["label"] = draw(st.sampled_from(LABELS))
                if draw(st.integers(0, 2)) == 0:
                    p["units"] = draw(st.sampled_from(UNITS))
    # options given, or left out for their documented defaults
    c["opts"] = {"given": draw(st.sets(st.sampled_from(["t", "a", "i", "P", "p", "b", "T"]))) if draw(st.booleans()) else set("taiPpbT"),
                 "host": draw(st.sampled_from(["10.0.0.9", "device.example", "localhost"])), "port": draw(st.sampled_from([502, 1502, 65535])),
                 "name": draw(st.sampled_from(["/dev/fake0", "COM3"])), "baud": draw(st.sampled_from([9600, 19200, 115200])),
                 "timeout": draw(st.sampled_from([1.5, 2.0, 10.0, 0.25]))}
    c["opts"]["given"] = sorted(c["opts"]["given"])
    c["end"] = draw(st.sampled_from(["id", "id+len", "none"])) if c["transport"] == "mapped" else "id+len"
    return c


DEFAULT = {"t": "tcp", "a": 1, "i": "localhost", "P": 502, "p": "/dev/ttyUSB0", "b": 9600, "T": 2.0}


def effective(case):
    """The options in effect."""
    o = case["opts"]
    full = {"t": case["transport"], "a": case["unit"], "i": o["host"], "P": o["port"], "p": o["name"], "b": o["baud"], "T": o["timeout"]}
    return {k: v if k in o["given"] or (k == "t" and v != "tcp") else DEFAULT[k] for k, v in full.items()}


def tool_args(case, b):
    """The command line; the simulated device is put where it says."""
    o = effective(case)
    names = {"tcp": "taiPT", "rtu": "tapbT", "mapped": "ta"}[case["transport"]]
    a = []
    for k in names:
        if k in case["opts"]["given"] or (k == "t" and o["t"] != "tcp"):
            a += ["-" + k, str(o[k])]
    if b.dev is not None:
        b.dev.unit = o["a"]
        b.world.ports = {o["p"]: [b.dev]}
        b.world.hosts = {(o["i"], o["P"]): [b.dev]}
    else:
        a += ["-m", b.mapfile]
    return a


def check_options(case, b):
    """The options reached the connection."""
    o, w = effective(case), b.world
    if case["transport"] == "rtu":
        eq([(n, int(b), p) for n, b, p in w.opens], [(o["p"], o["b"], sut.serial.PARITY_NONE)], "serial ports opened (-p, -b)")
        eq([s.timeout for s in w.serials], [o["T"]], "serial timeout (-T)")
    elif case["transport"] == "tcp":
        eq(sorted(set(x[:2] for x in w.connects)), [(o["i"], o["P"])], "connections made (-i, -P)")
        eq(set(s.timeout for s in w.sockets), {o["T"]}, "socket timeout (-T)")


def check_case(case, rec, runner):
    want = want_listing(case)
    rec.nontrivial(any(pts for h, pts in want))
    rec.label(case["transport"], "unknown model" if any(m["id"] in (60001, 60002) for m in case["models"]) else "known models")
    if any(p[3].startswith("bitfield") for h, pts in want for p in pts):
        rec.label("bitfields")
    with bench.bench(case) as b:
        status, text = runner(tool_args(case, b), b.tmp)
        eq(status, 0, "exit status; output %r" % text[-300:])
        check_listing(text, case)
        if runner is run_tool:
            check_options(case, b)
        if b.dev is not None:
            if any(r["func"] == 16 for r in b.dev.log):
                fail("the tool writes to the device")


@part("C32", "listing", lambda tier: listing_case(bench.TRANSPORTS), quick=260, thorough=8000, rule="at least one point is implemented")
def listing(case, rec):
    check_case(case, rec, run_tool)


@part("C32", "process", lambda tier: listing_case(["mapped"]), quick=12, thorough=200, rule="at least one point is implemented")
def process(case, rec):
    check_case(case, rec, run_process)


# ------------------------------------------------------------------------------------- errors

ERRORS = ["transport", "missing map", "bad map", "no sunspec", "refused", "silent", "no port", "exceptions", "read fault", "read fault", "read fault"]


def error_case():
    return st.fixed_dictionaries({"kind": st.sampled_from(ERRORS), "case": listing_case(bench.TRANSPORTS), "at": st.integers(0, 40),
                                  "fault": st.sampled_from(["silence", "exception", "reset"])})


@part("C32", "errors", lambda tier: error_case(), quick=220, thorough=5000, rule="every case")
def errors(case, rec):
    kind, c = case["kind"], dict(case["case"])
    rec.label(kind)
    if kind in ("refused", "silent", "exceptions", "read fault") and c["transport"] == "mapped":
        c["transport"] = "tcp"
        c["end"] = "id+len"
    if kind == "no port":
        c["transport"] = "rtu"
    if kind in ("missing map", "bad map"):
        c["transport"] = "mapped"
    with bench.bench(c) as b:
        argv = tool_args(c, b)
        may_succeed = False
        if kind == "transport":
            argv += ["-t", ["ip", "", "TCP", "serial"][case["at"] % 4]]
        elif kind == "missing map":
            argv = argv[:-2] if case["at"] % 2 else argv[:-1] + [os.path.join(b.tmp, "none.xml")]
        elif kind == "bad map":
            with open(b.mapfile, "wb") as f:
                f.write([b"", b"<mbmap>", b"<mbmap func='x'/>", b"<mbmap><regs type='u17'>1</regs></mbmap>", b"<mbmap/>"][case["at"] % 5])
        elif kind == "no sunspec":
            if b.dev is not None:
                for a in (0, 40000, 50000):
                    b.dev.load(a, b"SunX\0\1\0\0")
            else:
                with open(b.mapfile, "wb") as f:
                    f.write(ref.mbmap_xml(b.base, [(0, b"Sunx" + b.img[4:])]))
        elif kind == "refused":
            b.world.hosts.clear()
            b.world.ports.clear()
        elif kind == "no port":
            b.world.ports.clear()
        elif kind == "silent":
            b.dev.unit = 77 if b.dev.unit != 77 else 78
        elif kind == "exceptions":
            b.dev.regs = {}
            b.dev.missing = "exception"
        elif kind == "read fault":
            # a fault while the data is read, which comes after the scan
            o = effective(c)
            sd = sut.client.SunSpecClientDevice(c["transport"] == "rtu" and sut.client.RTU or sut.client.TCP, o["a"], name=o["p"],
                                                ipaddr=o["i"], ipport=o["P"])
            scan = len(b.dev.log)
            sd.read()
            reads = len(b.dev.log) - scan
            sd.close()
            at = case["at"] if case["at"] % 3 == 0 or not reads else scan + case["at"] % reads
            rec.label("fault while scanning" if at < scan else "fault while reading")
            b.dev.arm([{"at": at, "kind": case["fault"], "code": 4}])
            may_succeed = True
        status, text = run_tool(argv, b.tmp)
        if may_succeed and len(b.dev.log) - b.dev.base <= at:
            eq(status, 0, "exit status without a fault; output %r" % text[-300:])
            check_listing(text, c)
            rec.label("fault not reached")
            return
        if may_succeed and status == 0:
            # the fault hit a request whose failure does not matter (looking for the base address)
            rec.label("fault without effect")
            check_listing(text, c)
            return
        eq(status, 1, "exit status; output %r" % text[-300:])
        said = [l for l in text.split("\n") if l.strip() and not l.startswith("Timestamp:")]
        if not said:
            fail("the failure is not reported")
