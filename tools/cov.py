#!/usr/bin/env python3
"""Which access sites of the library the simulated runs reach: tools/cov.py [seconds per property] [props...]
Prints, per function of the library, reached/total instrumented sites, and the lines never reached."""
import json, os, re, struct, subprocess, sys, tempfile
from collections import defaultdict
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
import build
secs = sys.argv[1] if len(sys.argv) > 1 else "10"
props = sys.argv[2:] or ["C%02d" % i for i in range(1, 26)]
b = build.build()
tmp = tempfile.mkdtemp()
allf = defaultdict(set); hit = defaultdict(set)
for cfg in ("omp", "seq"):
    so = os.path.join(os.path.dirname(b[cfg]), "librepo_%s.so" % cfg)
    sites, fn, want = {}, None, False
    for l in subprocess.run(["objdump", "-d", "--no-show-raw-insn", so], stdout=subprocess.PIPE, text=True).stdout.split("\n"):
        m = re.match(r"([0-9a-f]+) <(.*)>:", l)
        if m: fn = m.group(2); continue
        m = re.match(r"\s*([0-9a-f]+):\s*(.*)", l)
        if not m: continue
        if want: sites[int(m.group(1), 16)] = fn; want = False
        if re.search(r"call.*<__tsan_(read|write|func_entry|unaligned)", m.group(2)): want = True
    cov = set()
    jobs = [subprocess.Popen([b[cfg], "search", "--prop", p, "--seed", "77", "--start", "0", "--stride", "1", "--seconds", secs, "--out", tmp + "/" + cfg + p],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for p in props]
    for j in jobs: j.wait()
    for p in props:
        f = tmp + "/" + cfg + p + ".cov"
        if os.path.exists(f):
            d = open(f, "rb").read()
            cov |= set(struct.unpack("<%dI" % (len(d) // 4), d))
    ad = sorted(sites)
    out = subprocess.run(["addr2line", "-e", so] + [hex(a - 1) for a in ad], stdout=subprocess.PIPE, text=True).stdout.split("\n")
    for a, l in zip(ad, out):
        l = l.split(" ")[0]
        if "/repo/" not in l: continue
        f, n = l.replace("/repo/", "").rsplit(":", 1)
        if not n.isdigit(): continue
        key = (f, sites[a])
        allf[key].add(int(n))
        if a in cov: hit[key].add(int(n))
if os.environ.get("COV_JSON"):
    r = defaultdict(set)
    for k in hit: r[k[0]] |= hit[k]
    json.dump({k: sorted(v) for k, v in r.items()}, open(os.environ["COV_JSON"], "w"))
files = defaultdict(lambda: [set(), set()])
for k in allf:
    files[k[0]][0] |= allf[k]; files[k[0]][1] |= hit[k]
dem = subprocess.run(["c++filt"], input="\n".join(k[1] for k in sorted(allf)), stdout=subprocess.PIPE, text=True).stdout.split("\n")
for f in sorted(files): print("%-45s %4d of %4d lines with shared accesses reached" % (f, len(files[f][1]), len(files[f][0])))
for k, d in zip(sorted(allf), dem):
    miss = sorted(allf[k] - hit[k])
    if miss: print("%s  %s  %d/%d  missing %s" % (k[0], d[:90], len(hit[k]), len(allf[k]), " ".join(map(str, miss)) if hit[k] else "ALL"))
