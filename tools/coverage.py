#!/usr/bin/env python3
"""Which basic blocks of the library the quick checks execute (not a check; shows what the families leave out).
coverage.py <property>...   -> prints per source file: blocks, blocks executed, and the lines never executed"""
import os, sys, subprocess, tempfile, struct, collections
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ["VMC_COV"] = "1"
f = os.environ.get("VMC_COVFILE") or tempfile.mktemp()
if not os.path.exists(f): open(f, "wb").truncate(1 << 22)
os.environ["VMC_COVFILE"] = f
for p in sys.argv[1:]: subprocess.run([sys.executable, HERE + "/check.py", p], stdout=subprocess.DEVNULL)
sys.path.insert(0, HERE + "/lib")
import runner
d = runner.build()
m = struct.unpack("<%dI" % (1 << 20), open(f, "rb").read())
n = max(i for i in range(1 << 19) if m[(1 << 19) + i] or i == 0)
offs = [hex(m[(1 << 19) + i]) for i in range(1, n + 1)]
out = subprocess.run(["llvm-symbolizer-18", "--obj=" + d + "/librank.so", "--no-inlines", "--basenames"], input="\n".join(offs), stdout=subprocess.PIPE, text=True).stdout
bl = [b.strip().splitlines() for b in out.split("\n\n") if b.strip()]
import signal; signal.signal(signal.SIGPIPE, signal.SIG_DFL)
F = collections.OrderedDict(); L = collections.defaultdict(set); H = collections.defaultdict(set)
for i, b in enumerate(bl):
    fn, loc = b[0], b[1].split(":")
    x = F.setdefault(loc[0], [0, 0]); x[0] += 1
    if m[i + 1]: x[1] += 1; H[loc[0]].add(int(loc[1]))
    else: L[loc[0]].add((int(loc[1]), fn))
for k, (a, b) in sorted(F.items()):
    print("%-34s %5d blocks %5d executed" % (k, a, b))
    by = collections.OrderedDict()
    for l, fn in sorted(L[k]):
        if l not in H[k]: by.setdefault(fn, []).append(l)
    for fn, ls in by.items(): print("      %s: %s" % (fn, " ".join(map(str, ls))))
