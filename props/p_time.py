"""C34: waiting for devices, on a simulated clock."""
from hypothesis import strategies as st
import fakes, sut
from harness import part, eq, fail, attempt, no_error
from props.p_modbus import make_device, payload, HOST, PORT

MErr, MTime = sut.modbus.ModbusClientError, sut.modbus.ModbusClientTimeout
CErr = sut.client.SunSpecClientError
TIMEOUTS = [None, 0.05, 0.25, 0.5, 1.0, 1.5, 2, 2.0, 3, 5.0, 30]
DEFAULT = {"rtu": 0.5, "tcp": 2.0}
LO = 40000


@st.composite
def case_(draw):
    t = draw(st.sampled_from(["rtu", "tcp"]))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["r", "r", "w"]))
        n = draw(st.sampled_from([1, 2, 7, 30]))
        # per request: the waiting time before each piece, in hundredths of the time-out; None: nothing comes
        waits = draw(st.lists(st.one_of(st.none(), st.lists(st.sampled_from([0, 1, 50, 97, 99, 99, 101, 120, 400]), min_size=1, max_size=2)),
                              min_size=1, max_size=4))
        ops.append([k, n, waits, draw(st.integers(0, 100)), draw(st.sampled_from([0, 0, 0, 0, 50, 99, 101, 300]))])
    return {"transport": t, "timeout": draw(st.sampled_from(TIMEOUTS)), "api": draw(st.sampled_from(["modbus", "client", "scripting"])),
            "max": draw(st.sampled_from([125, 125, 3, 10])), "ops": ops, "explicit": draw(st.booleans()),
            "other": draw(st.sampled_from([None, None, 0.1, 7]))}


def near(a, b):
    return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


@part("C34", "waits", lambda tier: case_(), quick=900,
      rule="devices with every kind of time-out setting (none: the default) over RTU and TCP, made directly, as client or scripting devices; "
           "transfers of several requests whose replies come in pieces at 0..99 % of the time-out after one another, or later, or not at all, "
           "and connections that take their time; non-trivial: something waits")
def waits(case, rec):
    w = fakes.world()
    t = case["transport"]
    dev = make_device(1, LO, 60, 5)
    dev.load(LO, b"SunS\xff\xff\0\0")
    w.ports[PORT] = [dev]
    w.hosts[HOST] = [dev]
    limit = DEFAULT[t] if case["timeout"] is None else float(case["timeout"])
    kw = {} if case["timeout"] is None else {"timeout": case["timeout"]}
    mx = case["max"] if case["api"] == "modbus" else 125
    if case["api"] == "modbus":
        if t == "rtu":
            d = sut.modbus.ModbusClientDeviceRTU(1, PORT, max_count=mx, **kw)
        else:
            d = sut.modbus.ModbusClientDeviceTCP(1, HOST[0], HOST[1], max_count=mx, **kw)
        close = d.close
    else:
        cls = sut.client.ClientDevice if case["api"] == "client" else sut.client.SunSpecClientDevice
        if t == "rtu":
            x = no_error(lambda: cls(sut.client.RTU, 1, name=PORT, **kw), "construction")
        else:
            x = no_error(lambda: cls(sut.client.TCP, 1, ipaddr=HOST[0], ipport=HOST[1], **kw), "construction")
        d = x.device if case["api"] == "scripting" else x
        close = x.close
    E = MErr if case["api"] == "modbus" else CErr
    if case["other"] is not None and t == "tcp":
        # another device with another time-out changes nothing for this one
        sut.modbus.ModbusClientDeviceTCP(2, HOST[0], HOST[1], timeout=case["other"])
    explicit = case["explicit"] and t == "tcp" and case["api"] == "modbus"
    waited = False
    for i, (k, n, waits_, cut, connect) in enumerate(case["ops"]):
        what = "operation %d %r of a %s device with time-out %r" % (i, [k, n, waits_, connect], t, case["timeout"])
        # what is to happen
        step = min(mx, 123) if k == "w" else mx
        nreq = -(-n // step)
        want, ok, faults = 0.0, True, []
        if t == "tcp" and d_socket_closed(w):
            if explicit:
                no_error(d.connect, "connect")
            else:
                c = connect / 100.0 * limit
                w.connect_always = c
                want += min(c, limit)
                ok = c <= limit
        connected = ok
        for r in range(nreq):
            if not ok:
                break
            ws = waits_[r % len(waits_)]
            if ws is None:
                faults.append({"at": r, "kind": "silence"})
                want += limit
                ok = False
                break
            s = [x / 100.0 * limit for x in ws]
            faults.append({"at": r, "kind": "delay", "s": s, "cut": cut})
            if len(s) == 2 and s[0] <= limit and sum(s) > limit * 1.0001:
                # the time-out may be for the reply or for each piece of it
                most, want = want + 3 * limit, None
                ok = False if s[1] > 2.5 * limit else None
                break
            if max(s) > limit:
                want += limit
                ok = False
                break
            want += sum(s)
        if ok is None:
            break            # and nothing is known of what is left on the line
        dev.arm(faults)
        t0 = w.clock
        fn = (lambda: bytes(d.read(LO + 4, n))) if k == "r" else (lambda: d.write(LO + 4, payload(i, n)))
        got, err = attempt(E, fn, what)
        took = w.clock - t0
        w.connect_always = None
        dev.disarm()
        waited = waited or took > 0
        if ok:
            if err is not None:
                fail("%s: failed (%s) although everything came in time", what, err)
            if k == "r":
                eq(got, dev.get(LO + 4, n), what + ": data")
            else:
                eq(dev.get(LO + 4, n), payload(i, n), what + ": registers")
        else:
            if err is None:
                fail("%s: succeeded although it had to time out", what)
            if case["api"] == "modbus" and connected and not isinstance(err, MTime):
                fail("%s: %s (%s) rather than a time-out", what, type(err).__name__, err)
        rec.label("ok" if ok else "time-out" if connected else "no connection")
        if want is not None and not near(took, want):
            fail("%s: took %.3f s, expected %.3f s", what, took, want)
        if want is None and took > most + 1e-6:
            fail("%s: took %.3f s", what, took)
        if t == "rtu":
            w.serials[-1].due = []
            w.serials[-1].inbuf = bytearray()
    close()
    rec.label(t, case["api"], "default" if case["timeout"] is None else "given")
    rec.nontrivial(waited)


def d_socket_closed(w):
    return not w.open_sockets()


@part("C34", "connect", lambda tier: st.fixed_dictionaries(
    {"timeout": st.sampled_from(TIMEOUTS), "given": st.lists(st.tuples(st.sampled_from(TIMEOUTS), st.sampled_from([1, 60, 99, 101, 500, None])), min_size=1, max_size=5)}),
      quick=200, rule="every case")
def connects(case, rec):
    w = fakes.world()
    dev = make_device(1, LO, 60, 5)
    w.hosts[HOST] = [dev]
    d = sut.modbus.ModbusClientDeviceTCP(1, HOST[0], HOST[1], **({} if case["timeout"] is None else {"timeout": case["timeout"]}))
    for given, takes in case["given"]:
        limit = float(given if given is not None else case["timeout"] if case["timeout"] is not None else DEFAULT["tcp"])
        what = "connect with time-out %r of a device with time-out %r" % (given, case["timeout"])
        w.connect_always = "timeout" if takes is None else takes / 100.0 * limit
        ok = takes is not None and takes <= 100
        t0 = w.clock
        _, err = attempt(MErr, (lambda: d.connect(given)) if given is not None else d.connect, what)
        if ok != (err is None):
            fail("%s that takes %s %% of it: error %s", what, takes, err)
        if not near(w.clock - t0, limit if not ok else takes / 100.0 * limit):
            fail("%s: took %.3f s", what, w.clock - t0)
        if ok:
            eq(bytes(d.read(LO, 3)), dev.get(LO, 3), what + ": data")
    w.connect_always = None
    d.close()


@part("C34", "stuck", lambda tier: st.fixed_dictionaries(
    {"transport": st.sampled_from(["rtu", "tcp"]), "timeout": st.sampled_from(TIMEOUTS), "api": st.sampled_from(["modbus", "client", "scripting"]),
     "ops": st.lists(st.tuples(st.sampled_from(["r", "w"]), st.sampled_from([1, 3, 130]), st.booleans()), min_size=1, max_size=5)}),
      quick=150, rule="requests the line does not take (flow control, a peer that does not read), on every kind of device; non-trivial: one is stuck")
def stuck(case, rec):
    w = fakes.world()
    t = case["transport"]
    dev = make_device(1, LO, 200, 5)
    dev.load(LO, b"SunS\xff\xff\0\0")
    w.ports[PORT] = [dev]
    w.hosts[HOST] = [dev]
    limit = DEFAULT[t] if case["timeout"] is None else float(case["timeout"])
    kw = {} if case["timeout"] is None else {"timeout": case["timeout"]}
    if case["api"] == "modbus":
        d = sut.modbus.ModbusClientDeviceRTU(1, PORT, **kw) if t == "rtu" else sut.modbus.ModbusClientDeviceTCP(1, HOST[0], HOST[1], **kw)
        close = d.close
    else:
        cls = sut.client.ClientDevice if case["api"] == "client" else sut.client.SunSpecClientDevice
        args = dict(name=PORT) if t == "rtu" else dict(ipaddr=HOST[0], ipport=HOST[1])
        x = no_error(lambda: cls(sut.client.RTU if t == "rtu" else sut.client.TCP, 1, **args, **kw), "construction")
        d, close = (x.device if case["api"] == "scripting" else x), x.close
    E = MErr if case["api"] == "modbus" else CErr
    for i, (k, n, bad) in enumerate(case["ops"]):
        what = "operation %d %s of %d registers%s" % (i, k, n, " that the line does not take" if bad else "")
        w.stuck = 1 if bad else 0
        t0, before = w.clock, dev.get(LO + 4, n)
        got, err = attempt(E, (lambda: bytes(d.read(LO + 4, n))) if k == "r" else (lambda: d.write(LO + 4, payload(i, n))), what)
        w.stuck = 0
        if bad:
            if err is None:
                fail("%s: succeeded", what)
            if not near(w.clock - t0, limit):
                fail("%s: took %.3f s of %.3f s", what, w.clock - t0, limit)
            eq(dev.get(LO + 4, n), before, what + ": registers")
        else:
            if err is not None:
                fail("%s: %s", what, err)
            eq(w.clock, t0, what + ": time taken")
            eq(dev.get(LO + 4, n) if k == "w" else got, payload(i, n) if k == "w" else before, what)
    close()
    rec.label(t, case["api"])
    rec.nontrivial(any(b for _, _, b in case["ops"]))
