#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_tail.md, the parts registered, KNOWN_FINDINGS, seeded/ and measurements."""
import glob, importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if "hypothesis" not in sys.modules:
    try:
        import hypothesis
    except ImportError:
        os.execv("/opt/veriftools/pyvenv/bin/python3", ["/opt/veriftools/pyvenv/bin/python3", os.path.abspath(__file__)] + sys.argv[1:])
sys.path[0:0] = [V, V + "/lib", V + "/props"]
sys.dont_write_bytecode = True
import harness
for f in sorted(glob.glob(V + "/props/p_*.py")):
    importlib.import_module("props." + os.path.basename(f)[:-3])
rd = lambda n: open(os.path.join(V, n)).read()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
o = [rd("tools/design_head.md")]
o.append("## 4. Parts and case counts\n\nQuick / thorough cases per part (`all`: a finite list, run completely). The last column is the part's rule, "
         "including when a case counts as non-trivial.\n\n| property | part | quick | thorough | rule |\n|---|---|---|---|---|")
for p in props:
    for q in {q.name: q for q in harness.PARTS[p["id"]]}.values():
        a, b = ("all", "all") if q.strategy is None else (harness.quick_cases(q), q.thorough)
        o.append("| %s | %s | %s | %s | %s |" % (p["id"], q.name, a, b, q.rule.replace("|", "/")))
o.append("\nA quick check takes 5 to 60 s on one core; a thorough one 5 to 60 minutes.\n")
o.append("## 5. Genuine defects found\n\nAll were repaired in /repo by one small commit each (`KNOWN_FINDINGS` lists them as fixed; none is left as a known "
         "finding). Each repair was reverted in a scratch copy and the check named reported it, except %s.\n" % rd("tools/revert_exceptions.txt").strip())
o.append("| commit | property | what failed |\n|---|---|---|")
for l in rd("KNOWN_FINDINGS").splitlines():
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        o.append("| %s | %s | %s |" % (m.group(2), m.group(1), m.group(3)))
o.append("")
o.append(rd("tools/design_tail.md"))
o.append(rd("tools/design_measure.md"))
res = json.load(open(V + "/tools/seeded_results.json")) if os.path.exists(V + "/tools/seeded_results.json") else {}
o.append("### Planted bugs (`seeded/`)\n\n%d bugs, each confirmed to build, to pass the stable tests and to fail its demonstration. *caught by*: the properties whose quick "
         "check (seed 1) reports it, its own first.\n\n| bug | needs | caught by |\n|---|---|---|" % len(os.listdir(V + "/seeded")))
for b in sorted(os.listdir(V + "/seeded")):
    m = json.loads(rd("seeded/%s/meta.json" % b))
    r = res.get(b, {})
    mine = m["property"]
    by = ([mine] if r.get(mine) == 1 else []) + [x for x in sorted(r) if r[x] == 1 and x != mine]
    o.append("| %s | %s | %s |" % (b, m["needs"].replace("|", "/"), " ".join(by) or ("?" if not r else "**none**")))
o.append("")
o.append(rd("tools/design_limits.md"))
open(V + "/DESIGN.md", "w").write("\n".join(o))
