#!/usr/bin/env python3
"""Which blocks of /repo's code no simulated run reaches (development tool, no check uses it).
usage: cover.py RUNS PROP...   prints the unreached lines per file"""
import os, re, subprocess, sys
N, PR = sys.argv[1], sys.argv[2:]
env = dict(os.environ, SIM_COV="1", SIM_BUILD="/tmp/cov.b", SIM_VERIF="/tmp/cov.v")
os.makedirs("/tmp/cov.v/evidence", exist_ok=True); os.makedirs("/tmp/cov.v/replays", exist_ok=True)
drv = subprocess.run(["python3", "/verif/build.py"], env=env, capture_output=True, text=True, check=True).stdout.strip().split("\n")[-1]
if not os.environ.get("COV_KEEP"): open("/tmp/cov.map", "wb").truncate(1 << 25)
for p in PR:
    r = subprocess.run([drv, "check", p, "quick", N, "300"], env=env, capture_output=True, text=True)
    if r.returncode: print(p, r.stdout[-300:])
so = os.path.dirname(drv) + "/librank_0.so"
hit = open("/tmp/cov.map", "rb").read()
sites = []
d = subprocess.run(["objdump", "-d", "--no-show-raw-insn", so], capture_output=True, text=True).stdout.split("\n")
for i, l in enumerate(d):
    if "call" in l and "__sanitizer_cov_trace_pc" in l:
        m = re.match(r"\s*([0-9a-f]+):", d[i + 1]) or re.match(r"\s*([0-9a-f]+):", d[i + 2]) or re.match(r"\s*([0-9a-f]+):", d[i + 3])
        sites.append(int(m.group(1), 16))
out = subprocess.run(["addr2line", "-e", so, "-f", "-C"], input="\n".join(hex(s) for s in sites), capture_output=True, text=True).stdout.split("\n")
cov, fn = {}, {}
for k, s in enumerate(sites):
    f, ln = out[2 * k], out[2 * k + 1]
    m = re.match(r"(/repo/[^:]*):(\d+)", ln)
    if not m: continue
    key = (m.group(1), int(m.group(2)))
    cov.setdefault(key, []).append(hit[s]); fn[key] = f
# a line is reported when some block starting there is never entered
last = None
tot = sum(len(v) for v in cov.values()); h = sum(sum(v) for v in cov.values())
print("blocks", tot, "reached", h)
src = {}
for (f, l) in sorted(cov):
    v = cov[(f, l)]
    if all(v): continue
    if f != last: print("==", f); last = f
    if f not in src: src[f] = open(f).read().split("\n")
    print("%5d %d/%d %s" % (l, sum(v), len(v), src[f][l - 1].strip()[:110]))
