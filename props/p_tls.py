"""C31: TLS connections of a TCP device, against a loopback server that sees the raw bytes."""
import os, socket, ssl, struct, threading
from hypothesis import strategies as st
import harness, fakes, ref, sut
from harness import part, enumerated, eq, fail, no_error

TLS = os.path.join(harness.VERIF, "lib", "tls")
ERR = sut.modbus.ModbusClientError
CERR = sut.client.SunSpecClientError
TIMEOUT = 20      # only a limit: no case is meant to wait for it


def pem(name):
    return os.path.join(TLS, name + ".pem")


# server certificate -> names it is good for
SERVERS = {"good": ("127.0.0.1", "localhost"), "ip": ("127.0.0.1",), "dns": ("localhost",),
           "wrong": (), "expired": (), "early": (), "other": ("127.0.0.1", "localhost"), "usage": ()}
ISSUER = {k: "other" if k == "other" else "ca" for k in SERVERS}
try:
    ADDRS = ["127.0.0.1"] + (["localhost"] if socket.gethostbyname("localhost") == "127.0.0.1" else [])
except OSError:
    ADDRS = ["127.0.0.1"]


class Server(object):
    """Serves Modbus/TCP over TLS (or in clear) on a loopback port and keeps what it saw."""

    def __init__(self, dev, cert, tls, client_ca, answer="none"):
        self.dev = dev
        self.answer = answer
        self.conns = []          # {"raw": bytes received, "requests": [...], "peer": certificate or None}
        self.ctx = None
        if tls:
            self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            self.ctx.load_cert_chain(pem("server-" + cert))
            self.ctx.load_verify_locations(pem("ca"))
            self.ctx.verify_mode = {"required": ssl.CERT_REQUIRED, "optional": ssl.CERT_OPTIONAL}[client_ca]
        self.sock = sut.real_socket(socket.AF_INET, socket.SOCK_STREAM)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(8)
        self.sock.settimeout(0.05)
        self.port = self.sock.getsockname()[1]
        self.stop = False
        self.error = None
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        while not self.stop:
            try:
                c, _ = self.sock.accept()
            except socket.timeout:
                continue
            except OSError:
                return
            if self.stop:
                c.close()
                return
            try:
                self.serve(c)
            except (OSError, ssl.SSLError):
                pass
            except Exception as e:
                self.error = e
            finally:
                c.close()

    def serve(self, c):
        c.settimeout(0.05)
        conn = {"raw": b"", "requests": [], "peer": None, "shaken": False}
        self.conns.append(conn)
        inp, out = ssl.MemoryBIO(), ssl.MemoryBIO()
        obj = self.ctx.wrap_bio(inp, out, server_side=True) if self.ctx else None
        buf = b""
        while not self.stop:
            try:
                d = c.recv(65536)
            except socket.timeout:
                continue
            if not d:
                return
            conn["raw"] += d
            if obj is None:
                buf += d
            else:
                inp.write(d)
                try:
                    if not conn["shaken"]:
                        obj.do_handshake()
                        conn["shaken"] = True
                        conn["peer"] = obj.getpeercert(binary_form=True)
                    while True:
                        x = obj.read(65536)
                        if not x:
                            return
                        buf += x
                except ssl.SSLWantReadError:
                    pass
                except ssl.SSLError:
                    c.sendall(out.read())
                    return
            while len(buf) >= 6:
                tid, proto, n = struct.unpack(">HHH", buf[:6])
                if proto:
                    # what a server without TLS makes of a TLS client: it hangs up, or answers in its own way
                    c.sendall({"mbap": buf[:4] + b"\0\5\1\3\2\0\7", "http": b"HTTP/1.0 400 Bad Request\r\n\r\n", "none": b""}[self.answer])
                    return
                if len(buf) < 6 + n:
                    break
                pdu, buf = buf[6:6 + n], buf[6 + n:]
                conn["requests"].append(pdu)
                resp, _ = self.dev.handle(pdu, pdu)
                if resp is not None:
                    frame = ref.tcp_frame(tid, resp)
                    if obj is None:
                        c.sendall(frame)
                    else:
                        obj.write(frame)
            if obj is not None:
                o = out.read()
                if o:
                    c.sendall(o)

    def close(self):
        self.stop = True
        try:      # wakes the thread
            w = sut.real_socket(socket.AF_INET, socket.SOCK_STREAM)
            w.settimeout(5)
            w.connect(("127.0.0.1", self.port))
            w.close()
        except OSError:
            pass
        self.thread.join(20)
        self.sock.close()
        if self.thread.is_alive():
            raise harness.HarnessError("the server thread does not end")
        if self.error is not None:
            raise harness.HarnessError("the server failed: %r" % self.error)

    def requests(self):
        return [r for c in self.conns for r in c["requests"]]


def tls_records_only(raw):
    """The bytes are TLS records (the last one may be cut short)."""
    while raw:
        if raw[0] not in (20, 21, 22, 23) or (len(raw) > 1 and raw[1] != 3):
            return False
        if len(raw) < 5:
            return True
        raw = raw[5 + struct.unpack(">H", raw[3:5])[0]:]
    return True


BASE = 40000
IMG = b"SunS" + bytes(range(1, 59)) + b"\xff\xff\0\0"


@st.composite
def op(draw):
    k = draw(st.sampled_from(["read", "read", "write", "connect", "close"]))
    if k == "read":
        a = draw(st.integers(0, 30))
        return ["read", BASE + a, draw(st.integers(1, 31 - a))]
    if k == "write":
        a = draw(st.integers(2, 25))
        return ["write", BASE + a, draw(st.binary(min_size=1, max_size=6)).hex() * 2]
    return [k]


CONFIG = {"server": st.sampled_from(sorted(SERVERS)), "addr": st.sampled_from(ADDRS),
          "server_tls": st.sampled_from([True, True, True, False]), "tls": st.sampled_from([True, True, True, False]),
          "ca": st.sampled_from(["ca", "ca", "ca", "other", None]), "skip": st.sampled_from([False, False, True]),
          "system": st.sampled_from([None, None, "ca", "other"]),
          "client": st.sampled_from(["client", "client", "client", "client-other"]),
          "need": st.sampled_from(["required", "optional"]), "answer": st.sampled_from(["none", "http", "mbap"]),
          "api": st.sampled_from(["modbus", "modbus", "client", "scripting", "missing-cert", "missing-ca"])}


def case_strategy():
    d = {k: v for k, v in CONFIG.items()}
    d["ops"] = st.lists(op(), min_size=1, max_size=5)
    return st.fixed_dictionaries(d)


def outcome(case):
    """"ok", "refused" (no request reaches the server), "late" (client certificate refused by the server)."""
    if case["tls"] != case["server_tls"]:
        return "refused"
    if not case["tls"]:
        return "ok"
    if case["api"] in ("missing-cert", "missing-ca"):
        return "refused"
    if not case["skip"]:
        # a CA file takes the place of the CAs the system trusts
        if (case["ca"] or case.get("system")) != ISSUER[case["server"]] or case["addr"] not in SERVERS[case["server"]]:
            return "refused"
    # the server asks for a certificate and checks the one presented, if any
    if case["client"] != "client":
        return "refused"
    return "ok"


def check_case(case, rec):
    sut.use_real_socket()
    want = outcome(case)
    rec.label(want, "skip" if case["skip"] and case["tls"] else "verify" if case["tls"] else "clear", case["api"])
    rec.nontrivial(case["tls"] or case["server_tls"])
    dev = fakes.Device(unit=1)
    dev.load(BASE, IMG)
    srv = Server(dev, case["server"], case["server_tls"], case["need"], case.get("answer", "none"))
    env = {k: os.environ.get(k) for k in ("SSL_CERT_FILE", "SSL_CERT_DIR")}
    os.environ["SSL_CERT_FILE"] = pem(case.get("system") or "nonexistent")
    os.environ["SSL_CERT_DIR"] = os.path.join(TLS, "nonexistent")
    try:
        run(case, want, dev, srv)
    finally:
        for k, v in env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        srv.close()
    for c in srv.conns:
        if case["tls"]:
            if not tls_records_only(c["raw"]):
                fail("bytes sent in clear although TLS is on: %s", c["raw"][:200].hex())
            if c["requests"] and not case["server_tls"]:
                fail("requests in clear although TLS is on")
        elif not case["server_tls"]:
            if c["raw"] and c["raw"][2:4] != b"\0\0":
                fail("bytes other than Modbus/TCP requests without TLS: %s", c["raw"][:200].hex())
    if want == "refused" and srv.requests():
        fail("requests reached the server although the connection must be refused: %r", srv.requests())
    if want == "ok" and case["tls"]:
        cert = ssl.PEM_cert_to_DER_cert(open(pem("client-cert")).read())
        for c in srv.conns:
            if c["requests"] and c["peer"] != cert:
                fail("the client certificate was not presented")


def args(case):
    f = lambda n: None if n is None else pem(n)
    cert, ca = case["client"] + "-cert", case["ca"]
    if case["api"] == "missing-cert":
        cert = "nonexistent"
    if case["api"] == "missing-ca":
        ca = "nonexistent"
    return dict(tls=case["tls"], cafile=f(ca), certfile=f(cert), keyfile=pem(case["client"] + "-key"),
                insecure_skip_tls_verify=case["skip"], timeout=TIMEOUT)


def run(case, want, dev, srv):
    api = case["api"]
    kw = args(case) if case["tls"] or case["skip"] or api == "client" else dict(timeout=TIMEOUT)
    if api == "scripting":
        image = b"SunS\xff\xff\0\0"
        dev.load(BASE, image)
        try:
            d = sut.client.SunSpecClientDevice(sut.client.TCP, 1, ipaddr=case["addr"], ipport=srv.port, **kw)
            got = None
        except CERR as e:
            got = e
        except Exception as e:
            fail("scripting device raises %s (%s)", type(e).__name__, e)
        if want == "ok" and got is not None:
            fail("the connection is refused (%s) although it must be made", got)
        if want != "ok" and got is None:
            fail("the connection is made although it must be refused")
        if want == "ok" and not srv.requests():
            fail("no request reached the server")
        return
    if api == "client":
        d = no_error(sut.client.ClientDevice, "creating the client device", sut.client.TCP, 1, ipaddr=case["addr"], ipport=srv.port, **kw)
        err = CERR
    else:
        d = no_error(sut.modbus.ModbusClientDeviceTCP, "creating the device", 1, case["addr"], srv.port, **kw)
        err = ERR
    try:
        for i, o in enumerate(case["ops"]):
            if o[0] == "read":
                fn = lambda: bytes(d.read(o[1], o[2]))
                good = dev.get(o[1], o[2])
            elif o[0] == "write":
                data = bytes.fromhex(o[2])
                fn = lambda: d.write(o[1], data)
                good = None
            elif api == "client":
                fn = d.close if o[0] == "close" else None
                good = None
            else:
                fn = d.connect if o[0] == "connect" else d.close
                good = None
            if fn is None:
                continue
            n = len(srv.requests())
            try:
                got, e = fn(), None
            except err as x:
                got, e = None, x
            except Exception as x:
                fail("operation %d %s raises %s (%s) rather than %s", i, o, type(x).__name__, x, err.__name__)
            if o[0] == "close":
                if e is not None:
                    fail("close raises %s", e)
                continue
            if want == "ok":
                if e is not None:
                    fail("operation %d %s: %s, although the connection must be made", i, o, e)
                if o[0] == "read":
                    eq(got, good, "operation %d %s" % (i, o))
                    eq(srv.requests()[n:], [ref.read_req(1, 3, o[1], o[2])], "requests of the read")
                if o[0] == "write":
                    eq(dev.get(o[1], len(data) // 2), data, "registers written")
            elif o[0] == "connect":
                # a certificate of the client is refused by the server after the connection is made;
                # a clear connection is only found to be none with the first exchange
                if e is None and case["tls"] and not (case["server_tls"] and refused_by_server(case)):
                    fail("connect succeeds although the connection must be refused")
            elif e is None:
                fail("operation %d %s succeeds although the connection must be refused", i, o)
    finally:
        d.close()


def refused_by_server(case):
    return outcome(dict(case, client="client")) == "ok"


@part("C31", "operations", lambda tier: case_strategy(), quick=250, thorough=8000, rule="TLS is on at the client or the server")
def operations(case, rec):
    check_case(case, rec)


def grid(tier):
    for server in sorted(SERVERS):
        for addr in ADDRS:
            for ca, system in (("ca", None), ("other", None), (None, None), (None, "ca"), ("other", "ca"), ("ca", "other"), (None, "other")):
                for skip in (False, True):
                    for api in ("modbus", "client", "scripting"):
                        yield {"server": server, "addr": addr, "server_tls": True, "tls": True, "ca": ca, "system": system, "skip": skip, "client": "client",
                               "need": "required", "api": api, "ops": [["read", BASE, 4]]}
    for s, c in ((True, False), (False, True), (False, False)):
        for skip in (False, True):
            for api in ("modbus", "client", "scripting"):
                for answer in ("none",) if s or not c else ("none", "http", "mbap"):
                    yield {"server": "good", "addr": "127.0.0.1", "server_tls": s, "tls": c, "ca": "ca", "skip": skip, "client": "client",
                           "need": "required", "api": api, "answer": answer, "ops": [["read", BASE, 4]]}


@enumerated("C31", "configurations", grid, rule="every combination of server certificate, address, CA, CAs the system trusts, verification and API")
def configurations(case, rec):
    check_case(case, rec)
