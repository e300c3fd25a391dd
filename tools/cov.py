#!/usr/bin/env python3
"""tools/cov.py BINARY MARKS FILE...: lines of FILE with instrumented places that no run has reached.
Development aid: build and run with SIM_COV=MARKS SIM_BUILD=DIR SIM_G=-gline-tables-only."""
import collections, os, re, subprocess, sys
binary, marks, files = sys.argv[1], sys.argv[2], sys.argv[3:]
m = open(marks, "rb").read()
base = int(re.search(r"^\s*\d+: ([0-9a-f]+).* __executable_start$", subprocess.run(["readelf", "-sW", binary], capture_output=True, text=True).stdout, re.M).group(1), 16)
dis = subprocess.Popen(["objdump", "-d", "--no-show-raw-insn", binary], stdout=subprocess.PIPE, text=True)
pcs = []
for l in dis.stdout:
    if "__sanitizer_cov_trace_pc>" in l and "call" in l:
        pcs.append(int(l.split(":")[0], 16) + 4)  # the call takes 5 bytes; its return address - 1 is marked
p = subprocess.run(["addr2line", "-e", binary], input="\n".join(hex(x) for x in pcs), capture_output=True, text=True).stdout.splitlines()
tot, hit = collections.defaultdict(set), collections.defaultdict(set)
for pc, w in zip(pcs, p):
    f, _, n = w.partition(" ")[0].rpartition(":")
    if not n.isdigit() or not re.search(r"/repo2?/", f):
        continue
    f = f.split("/repo2/")[-1].split("/repo/")[-1]
    tot[f].add(int(n))
    if pc - base < len(m) and m[pc - base]:
        hit[f].add(int(n))
for f in sorted(tot):
    if files and not any(x in f for x in files):
        continue
    miss = sorted(tot[f] - hit[f])
    if not files:
        print(f"{f}: {len(hit[f])}/{len(tot[f])}")
    else:
        src = open(next(p for p in (os.path.join(os.environ.get("SIM_REPO", "/repo"), f),))).read().split("\n")
        print(f, len(hit[f]), "of", len(tot[f]))
        for n in miss:
            if n <= len(src) and src[n - 1].strip() not in ("}", "};"):
                print(f"  {n}: {src[n - 1].strip()[:110]}")
