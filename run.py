#!/usr/bin/env python3
"""run.py --property ID [--replay FILE]: decides one property (see DESIGN.md)."""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"

if os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ, VERIF_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX=os.path.join(HERE, ".no-pycache"), PYTHONNOUSERSITE="1",
               PYTHONWARNINGS="ignore", TZ="UTC", LC_ALL="C.UTF-8")
    env.pop("PYTHONPATH", None)
    import shutil
    py = shutil.which("python3-vt") or VT
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path[0:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "props")]
import argparse, importlib

ap = argparse.ArgumentParser()
ap.add_argument("--property", required=True)
ap.add_argument("--replay")
ap.add_argument("--part")
a = ap.parse_args()
if a.part:
    os.environ["VERIF_PART"] = a.part

MODULES = {
    "p_codec": ["C01", "C02", "C03", "C04"],
    "p_client": ["C05", "C06", "C07", "C08", "C09", "C28", "C33"],
    "p_modbus": ["C10", "C11", "C12", "C13", "C14", "C15", "C16", "C30"],
    "p_map": ["C17", "C18", "C19"],
    "p_device": ["C20", "C21", "C22", "C23", "C26", "C27"],
    "p_misc": ["C24", "C25"],
    "p_fuzz": ["C29"],
    "p_tls": ["C31"],
    "p_tool": ["C32"],
    "p_time": ["C34"],
    "p_indep": ["C35"],
}
mod = [m for m, ids in MODULES.items() if a.property in ids]
if not mod:
    print("unknown property", a.property)
    sys.exit(2)
try:
    import harness
    importlib.import_module(mod[0])
except Exception:
    import traceback
    traceback.print_exc()
    print("HARNESS-ERROR property=%s" % a.property)
    sys.exit(2)
sys.stdout.flush()
rc = harness.main(a.property, a.replay)
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
