#!/usr/bin/env python3
"""Development tool: applies every planted bug to a scratch copy of /repo and runs checks on it.

matrix.py OUT.json [--own] [ID...]   results {bug: {property: exit code}}; --own: only the bug's own property
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1]
own = "--own" in sys.argv
ids = [a for a in sys.argv[2:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
props = ["C%02d" % i for i in range(1, 36)]
base = tempfile.mkdtemp(prefix="matrix_")
vc = os.path.join(base, "verif")
shutil.copytree(V, vc, ignore=shutil.ignore_patterns(".git", "replays", "evidence", "seeded"))
res = json.load(open(out)) if os.path.exists(out) else {}


def run(bug, pid):
    env = dict(os.environ, VERIF_REPO=os.path.join(base, bug), VERIF_SEED="1", VERIF_TIER="quick", VERIF_SHRINK_S="1",
               VERIF_SCALE=os.environ.get("VERIF_SCALE", "1"))
    try:
        return bug, pid, subprocess.run([sys.executable, vc + "/run.py", "--property", pid], env=env, stdout=subprocess.DEVNULL,
                                        stderr=subprocess.DEVNULL, timeout=900).returncode
    except subprocess.TimeoutExpired:
        return bug, pid, 99


for bug in ids:
    if own is False and len(res.get(bug, {})) == len(props):
        continue
    d = os.path.join(base, bug)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    subprocess.check_call(["git", "apply", "--directory=" + d.lstrip("/"), "--unsafe-paths", os.path.join(V, "seeded", bug, "patch.diff")], cwd="/")
    mine = json.load(open(os.path.join(V, "seeded", bug, "meta.json")))["property"]
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        for b, p, rc in ex.map(lambda p: run(bug, p), [mine] if own else props):
            res.setdefault(b, {})[p] = rc
    shutil.rmtree(d)
    r = res[bug]
    print(bug, "caught" if r[mine] == 1 else "MISSED", "also", [p for p in r if r[p] == 1 and p != mine], "odd", [p for p in r if r[p] not in (0, 1)], flush=True)
    json.dump(res, open(out, "w"), indent=0, sort_keys=True)
shutil.rmtree(base)
