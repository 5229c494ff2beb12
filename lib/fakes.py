"""Simulated devices and transports.

A `Device` is register memory that answers Modbus PDUs, keeps a request log and injects
faults. `FakeSerial` and `FakeSocket` stand in for serial.Serial and socket.socket and hand
the device's replies over in generator-chosen pieces. There are no clocks and no threads: a
read that would have to wait for its time-out returns (or raises) at once.
"""
import errno, socket as _socket, struct
import ref


class Budget(BaseException):
    """The code under test talks to the device without end."""


class Device(object):
    """Modbus server with sparse memory.

    faults: list of fault dicts, each armed for one request: {"at": n, "kind": ..., ...};
    n counts requests since `arm`. See `apply_fault`."""

    def __init__(self, regs=None, unit=1, input_regs=None, budget=5000):
        self.regs = dict(regs or {})
        self.input_regs = dict(input_regs) if input_regs is not None else None
        self.unit = unit
        self.log = []            # dicts: unit, func, addr, count, data, raw (PDU with unit), fault
        self.raw_log = []        # complete frames as received
        self.bad_frames = []     # frames that are not well-formed requests
        self.faults = []
        self.base = 0
        self.budget = budget
        self.limit_read = 125
        self.limit_write = 123
        self.writes_applied = 0
        self.missing = "exception"       # what a read of registers that do not exist gives: or "silence"

    # ---- memory
    def load(self, addr, data):
        for i in range(0, len(data), 2):
            self.regs[addr + i // 2] = (data[i] << 8) | data[i + 1]

    def get(self, addr, count, func=3):
        mem = self.input_regs if func == 4 and self.input_regs is not None else self.regs
        out = bytearray()
        for a in range(addr, addr + count):
            v = mem.get(a)
            if v is None:
                return None
            out += bytes([v >> 8, v & 255])
        return bytes(out)

    def snapshot(self):
        return dict(self.regs)

    # ---- faults
    def arm(self, faults):
        self.faults = list(faults)
        self.base = len(self.log)

    def disarm(self):
        self.faults = []

    def fault_now(self):
        n = len(self.log) - 1 - self.base
        for f in self.faults:
            if f["at"] == n:
                return f
        return None

    # ---- protocol
    def handle(self, pdu, raw):
        """pdu: unit + function + data. -> (reply pdu or None, fault dict or None)"""
        self.raw_log.append(raw)
        req = {"unit": pdu[0], "func": pdu[1] if len(pdu) > 1 else None, "addr": None, "count": None,
               "data": None, "raw": raw, "fault": None}
        self.log.append(req)
        if len(self.log) > self.budget:
            raise Budget()
        func = req["func"]
        ok = False
        if func in (3, 4) and len(pdu) == 6:
            req["addr"], req["count"] = struct.unpack(">HH", pdu[2:6])
            ok = True
        elif func == 16 and len(pdu) >= 7:
            req["addr"], req["count"], n = struct.unpack(">HHB", pdu[2:7])
            req["data"] = pdu[7:]
            ok = n == len(pdu) - 7 and n == 2 * req["count"]
        if not ok:
            self.bad_frames.append(raw)
            return bytes([pdu[0], (func or 0) | 0x80, 3]), self.fault_now()
        f = self.fault_now()
        req["fault"] = f
        if req["unit"] != self.unit:
            return None, f
        reply = self.answer(req, f)
        return reply, f

    def exception(self, req, code):
        return bytes([req["unit"], req["func"] | 0x80, code])

    def answer(self, req, f):
        kind = f["kind"] if f else None
        if kind == "exception" or kind == "setcrc" and f["code"] is not None:
            return self.exception(req, f["code"])
        func, addr, count = req["func"], req["addr"], req["count"]
        if func in (3, 4):
            if count < 1 or count > self.limit_read or addr + count > 65536:
                return self.exception(req, 3)
            data = self.get(addr, count, func)
            if data is None:
                return None if self.missing == "silence" else self.exception(req, 2)
            return bytes([req["unit"], func, 2 * count]) + data
        if count < 1 or count > self.limit_write or addr + count > 65536:
            return self.exception(req, 3)
        if self.get(addr, count) is None:
            return self.exception(req, 2)
        if kind not in ("lost", "refuse"):
            self.load(addr, req["data"])
            self.writes_applied += 1
            req["applied"] = True
        return struct.pack(">BBHH", req["unit"], 16, addr, count)


def accumulate(timed):
    t, out = 0, []
    for s, _ in timed:
        t += s
        out.append(t)
    return out


# a reply is turned into the bytes delivered, plus what happens after them:
#   "timeout" (nothing more comes), "close" (peer closes), "reset" (connection reset)

def corrupt(pdu, f, framing):
    """-> (list of byte strings, after) for reply pdu (unit+func+data) under fault f.

    framing(pdu) builds the frame."""
    if pdu is None:
        return b"", "timeout"
    k = f["kind"] if f else None
    if k in (None, "exception"):
        return framing(pdu), "timeout"
    if k == "delay":                     # the reply comes, in pieces, some time after the request
        return b"", ("delay", [(s, p) for s, p in zip(f["s"], split(framing(pdu), f.get("cut"), len(f["s"])))])
    if k in ("silence", "lost"):         # lost: request not even executed
        return b"", "timeout"
    if k == "late":
        return b"", "late"
    if k == "truncate":
        fr = framing(pdu)
        return fr[:min(f["n"], len(fr) - 1)], f.get("after", "timeout")
    if k == "close":
        return b"", "close"
    if k == "reset":
        return b"", "reset"
    if k == "flip":                       # flips bits of the finished frame
        fr = bytearray(framing(pdu))
        fr[f["pos"] % len(fr)] ^= f["mask"]
        return bytes(fr), "timeout"
    if k == "xor":                        # alters one byte of the frame; "crc": the CRC is made right again
        fr = bytearray(framing(pdu))
        fr[f["pos"]] ^= f["mask"]
        if f["crc"] and framing is ref.rtu_frame:
            fr = bytearray(framing(bytes(fr[:-2])))
        return bytes(fr), "timeout"
    if k == "setcrc":                     # the two CRC bytes are replaced
        return framing(pdu)[:-2] + struct.pack(">H", f["value"]), "timeout"
    if k == "unit":
        return framing(bytes([(pdu[0] + f["delta"]) % 256]) + pdu[1:]), "timeout"
    if k == "func":
        return framing(pdu[:1] + bytes([(pdu[1] + f["delta"]) & 0x7f]) + pdu[2:]), "timeout"
    if k == "count":                      # well-formed reply with another number of registers
        d = f["delta"]
        if pdu[1] in (3, 4):
            n = max(0, pdu[2] // 2 + d)
            if n == pdu[2] // 2:
                n += 1
            if n > 126:
                n = pdu[2] // 2 - 1
            data = (pdu[3:] + b"\x12\x34" * 200)[:2 * n]
            return framing(pdu[:2] + bytes([2 * n]) + data), "timeout"
        c = (struct.unpack(">H", pdu[4:6])[0] + d) % 65536
        return framing(pdu[:4] + struct.pack(">H", c)), "timeout"
    if k == "bytecount":                  # byte count field disagrees with the data in the frame
        if pdu[1] in (3, 4):
            return framing(pdu[:2] + bytes([(pdu[2] + f["delta"]) % 256]) + pdu[3:]), "timeout"
        return framing(pdu[:-1]), "timeout"
    if k == "addr":
        if pdu[1] == 16:
            a = (struct.unpack(">H", pdu[2:4])[0] + f["delta"]) % 65536
            return framing(pdu[:2] + struct.pack(">H", a) + pdu[4:]), "timeout"
        return framing(pdu[:1] + bytes([16]) + pdu[2:]), "timeout"
    if k == "mbap":                       # MBAP length field disagrees with the frame
        fr = bytearray(framing(pdu))
        n = struct.unpack(">H", fr[4:6])[0] + f["delta"]
        fr[4:6] = struct.pack(">H", max(0, n) % 65536)
        return bytes(fr), "timeout"
    if k == "garbage":
        return bytes.fromhex(f["hex"]), f.get("after", "timeout")
    raise AssertionError("unknown fault " + k)


def split(frame, cut, n):
    """The frame in n pieces."""
    if n == 1:
        return [frame]
    at = 1 + cut % (len(frame) - 1)
    return [frame[:at], frame[at:]]


class Pieces(object):
    """Fragmentation schedule: sizes of the pieces in which input arrives, then all at once."""
    def __init__(self, sizes):
        self.sizes = list(sizes or [])
        self.i = 0

    def next(self):
        if not self.sizes:
            return 1 << 30
        n = self.sizes[self.i % len(self.sizes)]
        self.i += 1
        return max(1, n)


class World(object):
    """All simulated ports and hosts of a case."""

    def __init__(self):
        self.ports = {}          # serial port name -> Device list (bus)
        self.hosts = {}          # (host, port) -> Device list
        self.pieces = Pieces([])
        self.serials = []        # FakeSerial objects ever opened successfully
        self.sockets = []        # FakeSocket objects ever created
        self.connects = []       # (host, port, ok)
        self.open_errors = {}    # port name -> number of opens that still fail
        self.connect_errors = [] # queue of error kinds for coming connects (None = works)
        self.connect_always = None
        self.on_io = None        # called whenever a device is written to or waited for
        self.stuck = 0           # coming requests the line does not take (flow control, full send buffer)
        self.stale = b""         # bytes in the serial input buffer before each request
        self.serial_error = None # dict {"op": "write"/"read"/"flush"/..., "n": remaining calls}
        self.socket_error = None
        self.opens = []          # (name, baudrate, parity) of every open attempt
        self.clear_text = bytearray()
        self.clock = 0.0         # simulated time: seconds spent waiting for devices
        self.slept = []          # (seconds, requests made by then) of every sleep

    def io(self):
        if self.on_io is not None:
            self.on_io()

    def requests(self):
        devs = {id(d): d for l in list(self.ports.values()) + list(self.hosts.values()) for d in l}
        return sum(len(d.log) for d in devs.values())

    def open_serials(self):
        return [s for s in self.serials if s.is_open]

    def open_sockets(self):
        return [s for s in self.sockets if s.connected and not s.closed]

    def unclosed_sockets(self):
        return [s for s in self.sockets if not s.closed]


WORLD = World()


def reset_world():
    global WORLD
    WORLD = World()
    return WORLD


def world():
    return WORLD


SerialException = IOError      # replaced by install()
SerialTimeout = IOError


def failure(kind, text):
    """An exception of a failing port or socket, of the types their libraries raise."""
    if kind == "termios":
        import termios
        return termios.error(errno.EIO, "Input/output error")
    if kind == "os":
        return OSError(errno.EIO, "Input/output error")
    if kind == "type":        # pyserial, of a port closed meanwhile
        return TypeError("an integer is required (got type NoneType)")
    if kind == "netdown":
        return OSError(errno.ENETDOWN, text)
    if kind == "reset":
        return ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
    if kind == "pipe":
        return BrokenPipeError(errno.EPIPE, "Broken pipe")
    if kind == "timeout":
        return _socket.timeout("timed out")
    return SerialException(text)


class FakeSerial(object):
    def __init__(self, port=None, baudrate=9600, bytesize=8, parity="N", stopbits=1, timeout=None,
                 xonxoff=False, rtscts=False, write_timeout=None, dsrdtr=False, inter_byte_timeout=None,
                 exclusive=None, writeTimeout=None, **kw):
        w = WORLD
        self.world = w
        w.opens.append((port, baudrate, parity))
        n = w.open_errors.get(port, 0)
        if n or port not in w.ports:
            if n:
                w.open_errors[port] = n - 1
            raise SerialException("could not open port %s" % port)
        self.port = self.name = self.portstr = port
        self.baudrate, self.bytesize, self.parity, self.stopbits = baudrate, bytesize, parity, stopbits
        self.timeout = timeout
        self.xonxoff, self.rtscts, self.dsrdtr = xonxoff, rtscts, dsrdtr
        self.write_timeout = write_timeout if write_timeout is not None else writeTimeout
        self.is_open = True
        self.inbuf = bytearray()
        self.written = []
        self.flushes = 0
        self.flushed = False
        self.rtu_after = "timeout"
        self.due = []
        w.serials.append(self)

    @property
    def writeTimeout(self):
        return self.write_timeout

    @writeTimeout.setter
    def writeTimeout(self, v):
        self.write_timeout = v

    def isOpen(self):
        return self.is_open

    def open(self):
        self.is_open = True

    def close(self):
        self.is_open = False        # the descriptor is gone even if closing it reports an error
        self._err("close")

    def _err(self, op):
        e = self.world.serial_error
        if e and e["op"] == op and e["n"] != 0:
            e["n"] -= 1
            raise failure(e.get("exc"), "device disconnected (%s)" % op)

    def _check(self):
        if not self.is_open:
            raise SerialException("Attempting to use a port that is not open")

    def flushInput(self):
        self._check()
        self._err("flush")
        self.inbuf = bytearray()
        self.flushes += 1
        self.flushed = True

    reset_input_buffer = flushInput

    def flushOutput(self):
        self._check()

    reset_output_buffer = flush = flushOutput

    @property
    def in_waiting(self):
        return len(self.inbuf)

    def inWaiting(self):
        return len(self.inbuf)

    def write(self, data):
        self.world.io()
        self._check()
        self._err("write")
        data = bytes(data)
        if self.world.stuck:
            self.world.stuck -= 1
            if self.write_timeout is None:
                raise Budget()          # would wait for ever
            self.world.clock += self.write_timeout
            raise SerialTimeout("Write timeout")
        self.due = []            # what comes later than a time-out is not simulated here
        self.written.append((data, len(self.inbuf)))
        if len(data) < 4:
            for d in self.world.ports[self.port]:
                d.bad_frames.append(data)
            return len(data)
        body, crc = data[:-2], data[-2:]
        good = crc == ref.rtu_frame(body)[-2:]
        if not self.flushed:
            # bytes that came in since the last exchange and were not discarded
            self.inbuf += self.world.stale
        self.flushed = False
        for d in self.world.ports[self.port]:
            if not good:
                d.bad_frames.append(data)
                continue
            if body[0] != d.unit:
                continue
            reply, f = d.handle(body, data)
            out, after = corrupt(reply, f, ref.rtu_frame)
            d.log[-1]["reply"] = out
            if isinstance(after, tuple):
                self.due = [(w + self.world.clock, p) for w, p in zip(accumulate(after[1]), [p for _, p in after[1]])]
            if after == "late":
                self.pending_late = ref.rtu_frame(reply)
            elif getattr(self, "pending_late", None):
                # arrives after the flush that preceded this request was done: a real line
                # delivers it before the reply only if the slave is that late; RTU cannot
                # tell them apart, so it is simply dropped here
                self.pending_late = None
            self.inbuf += out
        return len(data)

    def read(self, size=1):
        self.world.io()
        self._check()
        self._err("read")
        if self.due and size > 0:
            # like pyserial: waits until it has all the bytes asked for, or its time is up
            end = self.world.clock + self.timeout if self.timeout is not None else float("inf")
            while self.due and len(self.inbuf) < size and self.due[0][0] <= end:
                t, p = self.due.pop(0)
                self.world.clock = max(self.world.clock, t)
                self.inbuf += p
            if len(self.inbuf) < size:
                self.world.clock = end
            out = bytes(self.inbuf[:size])
            del self.inbuf[:size]
            return out
        if not self.inbuf and size > 0:
            if self.timeout is None:
                raise Budget()          # would wait for ever
            self.world.clock += self.timeout
        if not self.inbuf or size <= 0:
            return b""
        n = min(size, self.world.pieces.next(), len(self.inbuf))
        out = bytes(self.inbuf[:n])
        del self.inbuf[:n]
        return out

    def read_until(self, *a):
        raise AssertionError("not simulated")


class FakeSocket(object):
    """Only TCP client sockets."""

    def __init__(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None):
        self.family, self.type, self.proto = family, type, proto
        self.world = WORLD
        self.connected = False
        self.closed = False
        self.timeout = None
        self.inbuf = bytearray()
        self.outbuf = bytearray()
        self.after = "timeout"
        self.peer = None
        self.late = bytearray()
        self.due = []
        self.broken = False
        self.sent = bytearray()
        self.world.sockets.append(self)
        self._err("create")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _err(self, op):
        e = self.world.socket_error
        if e and e["op"] == op and e["n"] != 0:
            e["n"] -= 1
            raise failure(e.get("exc") or "netdown", "Network is down (%s)" % op)

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, f):
        self.timeout = None if f else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def fileno(self):
        return -1

    def getpeername(self):
        if not self.connected:
            raise OSError(errno.ENOTCONN, "not connected")
        return self.peer

    def bind(self, addr):
        pass

    def connect(self, addr):
        w = self.world
        w.io()
        if self.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        kind = w.connect_always
        if kind is None and w.connect_errors:
            kind = w.connect_errors.pop(0)
        if kind is None and tuple(addr) not in w.hosts:
            kind = "refused"
        w.connects.append((addr[0], addr[1], kind))
        if kind == "refused":
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        if isinstance(kind, (int, float)):       # the connection takes so many seconds
            if self.timeout is None or kind <= self.timeout:
                w.clock += kind
                kind = None
            else:
                kind = "timeout"
        if kind == "timeout":
            if self.timeout is None:
                raise Budget()
            w.clock += self.timeout
            raise _socket.timeout("timed out")
        if kind == "unreachable":
            raise OSError(errno.EHOSTUNREACH, "No route to host")
        if kind == "unicode":
            raise UnicodeError("encoding with 'idna' codec failed (UnicodeError: label empty or too long)")
        if kind == "gaierror":
            raise _socket.gaierror(-2, "Name or service not known")
        self.connected = True
        self.peer = tuple(addr)

    def connect_ex(self, addr):
        try:
            self.connect(addr)
            return 0
        except OSError as e:
            return e.errno or errno.ETIMEDOUT

    def close(self):
        was = self.closed
        self.closed = True
        self.connected = False
        if not was:
            self._err("close")

    def shutdown(self, how):
        if not self.connected or (self.broken and self.after == "reset"):
            raise OSError(errno.ENOTCONN, "not connected")

    def detach(self):
        self.closed = True
        return -1

    def _check(self):
        if self.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        if not self.connected:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")

    def sendall(self, data, flags=0):
        self.world.io()
        self._check()
        self._err("send")
        if self.broken:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if self.world.stuck:
            self.world.stuck -= 1
            if self.timeout is None:
                raise Budget()
            self.world.clock += self.timeout
            raise _socket.timeout("timed out")
        self.sent += data
        self.outbuf += data
        self._serve()

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def _serve(self):
        while len(self.outbuf) >= 6:
            tid, proto, n = struct.unpack(">HHH", self.outbuf[:6])
            if len(self.outbuf) < 6 + n:
                break
            raw = bytes(self.outbuf[:6 + n])
            del self.outbuf[:6 + n]
            pdu = raw[6:]
            if self.late:
                self.inbuf += self.late
                self.late = bytearray()
            devs = self.world.hosts[self.peer]
            if len(pdu) < 2 or proto != 0:
                for d in devs:
                    d.bad_frames.append(raw)
                continue
            for d in devs:
                if d.unit != pdu[0]:
                    continue
                if self.after in ("close", "reset"):
                    return
                reply, f = d.handle(pdu, raw)
                framing = lambda p: ref.tcp_frame(tid, p)
                out, after = corrupt(reply, f, framing)
                d.log[-1]["reply"] = out
                if isinstance(after, tuple):
                    self.due += [(w + self.world.clock, p) for w, p in zip(accumulate(after[1]), [p for _, p in after[1]])]
                    after = "timeout"
                if after == "late":
                    self.late += framing(reply)
                    after = "timeout"
                self.inbuf += out
                if after in ("close", "reset"):
                    self.after = after

    def recv(self, size, flags=0):
        self.world.io()
        self._check()
        self._err("recv")
        if self.inbuf:
            n = min(size, self.world.pieces.next(), len(self.inbuf))
            out = bytes(self.inbuf[:n])
            if not flags & _socket.MSG_PEEK:
                del self.inbuf[:n]
            return out
        if self.due and self.timeout != 0:
            t = self.due[0][0]
            if self.timeout is None or t <= self.world.clock + self.timeout:
                self.world.clock = max(self.world.clock, t)
                self.inbuf += self.due.pop(0)[1]
                return self.recv(size, flags)
        if self.after == "close":
            self.broken = True
            return b""
        if self.after == "reset":
            self.broken = True
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        if self.timeout is None:
            raise Budget()          # would wait for ever
        if self.timeout == 0:
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        self.world.clock += self.timeout
        raise _socket.timeout("timed out")

    def recv_into(self, buf, nbytes=0, flags=0):
        d = self.recv(nbytes or len(buf), flags)
        buf[:len(d)] = d
        return len(d)

    def makefile(self, *a, **k):
        raise AssertionError("not simulated")
