"""Loads the code under test from /repo with simulated serial port and socket."""
import os, sys, time, types
import harness

sys.dont_write_bytecode = True
sys.path.insert(0, harness.REPO)

import fakes
import ssl, socket                       # before socket.socket is replaced
real_socket = socket.socket
real_getaddrinfo = socket.getaddrinfo
real_sleep = time.sleep


def _load_serial():
    site = "/opt/venv/lib/python3.12/site-packages"
    try:
        import serial
        return serial
    except ImportError:
        pass
    if os.path.isdir(os.path.join(site, "serial")):
        sys.path.append(site)
        try:
            import serial
            return serial
        except ImportError:
            pass
        finally:
            sys.path.remove(site)
    m = types.ModuleType("serial")
    m.PARITY_NONE, m.PARITY_EVEN, m.PARITY_ODD = "N", "E", "O"
    m.EIGHTBITS, m.STOPBITS_ONE, m.STOPBITS_TWO = 8, 1, 2

    class SerialException(IOError):
        pass
    m.SerialException = SerialException
    m.SerialTimeoutException = type("SerialTimeoutException", (SerialException,), {})
    sys.modules["serial"] = m
    return m


serial = _load_serial()
fakes.SerialException = serial.SerialException
fakes.SerialTimeout = serial.SerialTimeoutException


def use_fakes():
    serial.Serial = fakes.FakeSerial
    socket.socket = fakes.FakeSocket
    socket.getaddrinfo = fake_getaddrinfo
    time.sleep = fake_sleep


def fake_sleep(s):
    if s < 0:
        raise ValueError("sleep length must be non-negative")
    w = fakes.world()
    w.clock += s
    w.slept.append((s, w.requests()))


def fake_getaddrinfo(host, port, *a, **k):
    return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", (host, port))]


def use_real_socket():
    socket.socket = real_socket
    socket.getaddrinfo = real_getaddrinfo
    time.sleep = real_sleep


use_fakes()

import sunspec.core.util as util
import sunspec.core.suns as suns
import sunspec.core.smdx as smdx
import sunspec.core.pics as pics
import sunspec.core.data as data
import sunspec.core.device as device
import sunspec.core.modbus.mbmap as mbmap
import sunspec.core.modbus.client as modbus
import sunspec.core.client as client

if not os.path.realpath(client.__file__).startswith(os.path.realpath(harness.REPO) + os.sep):
    raise harness.HarnessError("sunspec was not loaded from %s but %s" % (harness.REPO, client.__file__))

def _owners():
    """The package's modules and classes."""
    for n, m in list(sys.modules.items()):
        if (n == "sunspec" or n.startswith("sunspec.")) and m is not None:
            yield m
            for c in list(vars(m).values()):
                if isinstance(c, type) and str(getattr(c, "__module__", "")).startswith("sunspec"):
                    yield c


def _names(o):
    return {k: v for k, v in vars(o).items() if not (k.startswith("__") and k.endswith("__"))}


def _snapshot():
    return [(o, {k: (v, v.copy() if type(v) in (dict, list, set, bytearray) else None) for k, v in _names(o).items()}) for o in _owners()]


_initial = _snapshot()


def reset():
    """Global state of the code under test as in a fresh process: every variable of its modules and classes as after the import."""
    fakes.reset_world()
    for o, names in _initial:
        for k in list(_names(o)):
            if k not in names:
                delattr(o, k)
        for k, (v, content) in names.items():
            if vars(o).get(k, reset) is not v:
                setattr(o, k, v)
            if content is not None and v != content:
                if type(v) in (dict, set):
                    v.clear()
                    v.update(content)
                else:
                    v[:] = content
            if hasattr(v, "cache_clear"):
                v.cache_clear()


harness.SETUP_CASE.append(reset)
