"""Coverage-guided fuzz target for the document loaders: fuzz_target.py KIND CORPUS [libFuzzer options]."""
import os, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[0:0] = [HERE, os.path.join(HERE, "..", "props")]
import atheris
with atheris.instrument_imports(include=["sunspec"]):
    import sut
import harness, p_fuzz, p_device

kind = sys.argv[1]
sut.use_real_socket()
DEF = {"id": 7, "len": 6, "name": None,
       "fixed": {"len": 3, "name": None, "points": [{"id": "A", "offset": 0, "type": "int16", "sf": "S"},
                                                    {"id": "S", "offset": 1, "type": "sunssf"}]},
       "repeating": {"len": 3, "name": None, "points": [{"id": "B", "offset": 0, "type": "string", "len": 3}]}}


def one(data):
    for tok in (b"len", b"addr", b"offset"):
        pass
    # register counts beyond 65535 only cost memory: outside the domain
    import re
    if re.search(rb"\d{5,}", data.replace(b"_", b"")) or b"e" in data and re.search(rb"\d[eE]\+?\d{3,}", data):
        return
    with p_device.definitions(DEF) as tmp:
        p_fuzz.check_bad(kind, data, tmp, 5, [0, 7], harness.Recorder())


def quiet(data):
    old = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        one(data)
    finally:
        sys.stdout.close()
        sys.stdout = old


atheris.Setup([sys.argv[0]] + sys.argv[2:], quiet)
atheris.Fuzz()
