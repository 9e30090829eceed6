"""Configuration families per property: plain enumeration, no sampling.

A configuration is one line of key=value words understood by mc/vmc.  `deep`
configurations are explored over schedules (delays, message timings, races),
`wide` ones run under a handful of canonical schedules and exist to enumerate
the input / parameter space."""
H2 = "h=i0.|.s0.w0.s0.w0.f0"
H3 = "h=i0.|.s0.w0.s0.w0.s0.w0.f0"
WIDE = "opt=light,nodelay"
ONE = "opt=nosnap"
NR = ("", "notrec=1 ")   # the setting can only switch recursion off

def uniq(l):
    seen, o = set(), []
    for x in l:
        if x not in seen:
            seen.add(x); o.append(x)
    return o

def irr(n, k=0):
    """irregular per-rank counts, with zeros"""
    pats = [lambda i: (i * 7 + 2) % 5, lambda i: 0 if i % 2 else 3 + i, lambda i: 9 if i == 0 else 0, lambda i: i + 1, lambda i: 0 if i < n - 1 else 4]
    return ",".join(str(pats[k % len(pats)](i)) for i in range(n))

COUNTS_W = (0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 31, 33, 64, 100, 257)
COUNTS_B = (500, 1000, 2500)

def roots(n, full=False):
    return range(n) if full else sorted({0, n // 2, n - 1})

def specs(coll, n, deep=True, big=False):
    """count/root parts for a collective on n ranks"""
    o = []
    if coll == "allreduce":
        o = ["coll=allreduce count=%d" % k for k in ((1, 6, 40) if deep else COUNTS_W + (COUNTS_B if big else ()))]
    elif coll in ("reduce", "bcast"):
        for r in roots(n, not deep and n <= 8):
            for k in ((1, 9) if deep else ((0, 1, 2, 3, 5, 8, 17, 64) + ((300, 1000) if big else ()))):
                o.append("coll=%s count=%d root=%d" % (coll, k, r))
    elif coll == "allgather":
        o = ["coll=allgather count=%d" % k for k in ((1, 5) if deep else (0, 1, 2, 3, 5, 8, 17, 64) + ((300,) if big else ()))]
    elif coll == "allgatherv":
        o = ["coll=allgatherv counts=%s" % irr(n, k) for k in ((0, 1) if deep else range(5))]
    elif coll == "reduce_scatter_block":
        o = ["coll=reduce_scatter_block count=%d" % k for k in ((1, 5) if deep else (0, 1, 2, 3, 5, 8, 17, 64) + ((300,) if big else ()))]
    elif coll == "reduce_scatter":
        o = ["coll=reduce_scatter counts=%s" % irr(n, k) for k in ((0, 1) if deep else range(5))]
    elif coll in ("gather", "scatter"):
        for r in roots(n, not deep and n <= 8):
            for k in ((1, 5) if deep else (0, 1, 2, 3, 8, 17) + ((300,) if big else ())):
                o.append("coll=%s count=%d root=%d" % (coll, k, r))
    elif coll in ("gatherv", "scatterv"):
        for r in roots(n, not deep and n <= 8):
            for k in ((0,) if deep else range(5)):
                o.append("coll=%s counts=%s root=%d" % (coll, irr(n, k), r))
    return o

TOPO_DEEP = [(2, 1), (2, 2), (3, 1), (3, 3), (4, 1), (4, 2), (4, 4), (5, 1), (5, 5), (6, 2), (6, 3), (6, 6)]
TOPO_DEEP2 = [(7, 1), (8, 2), (8, 4), (8, 1), (8, 8), (9, 3)]
TOPO_WIDE = [(1, 1), (2, 1), (2, 2), (3, 1), (3, 3), (4, 1), (4, 2), (4, 4), (5, 1), (5, 5), (6, 1), (6, 2), (6, 3), (6, 6), (7, 1), (7, 7), (8, 1), (8, 2), (8, 4), (8, 8), (9, 3), (10, 2), (10, 5), (12, 4), (12, 3)]
TOPO_WIDE2 = [(9, 1), (9, 9), (10, 1), (10, 10), (11, 1), (12, 1), (12, 2), (12, 6), (12, 12), (13, 1), (14, 1), (14, 2), (14, 7), (15, 1), (15, 3), (15, 5), (16, 1), (16, 2), (16, 4), (16, 8), (16, 16)]

TOPO_BIG = [(2, 1), (2, 2), (3, 1), (3, 3), (4, 1), (4, 2), (4, 4), (5, 1), (6, 3), (8, 1), (8, 4), (8, 8)]

def bigspec(c, n, m, root):
    """m elements in the whole vector"""
    s = {"allreduce": "count=%d" % m, "reduce": "count=%d root=%d" % (m, root), "bcast": "count=%d root=%d" % (m, root)}.get(c)
    if s is None:
        per = max(1, m // n)
        s = ("counts=" + ",".join(str(per + (i * 37) % 61 if i % 3 else per // 2) for i in range(n))) if c in ("allgatherv", "gatherv", "scatterv", "reduce_scatter") else "count=%d" % per
        if c in ("gather", "gatherv", "scatter", "scatterv"): s += " root=%d" % root
    return "coll=%s %s" % (c, s)

def pow2(x): return x & (x - 1) == 0

def copyins(ppn, single, small, tiny=False):
    """copyin choices: the library's own candidates (measurement outcomes) as explicit settings"""
    pf, m, x = [], ppn, 2
    while m > 1:
        while m % x == 0: pf.append(x); m //= x
        x += 1
    out = []
    for i in range(len(pf) + 1):
        f = 1
        for p in pf[:i]: f *= p
        out.append("copyin=0;" + "_".join(str(v) for v in [f] + pf[i:]))
    if not pow2(ppn) and not (single and small):
        j, l = 1, ["1"]
        while j < ppn: l.append("2"); j *= 2
        out.append("copyin=1;" + "_".join(l))
    if single and tiny:
        j, l = 1, ["1"]
        while j < ppn: l.append("2"); j *= 2
        out.append("copyin=0;" + "_".join(l))
    return uniq(out)

# port schemes valid for reductions (a reduction phase and a distribution phase) and for gathers (distribution only)
PORTS_R = {1: [], 2: ["2(-1_1)", "2(-1)_2(1)", "2(1)"], 3: ["3(-2_2)", "3(-2)_3(2)", "3(2)", "3(1_1)", "3(-1_-1_1_1)"],
           4: ["4(-3_3)", "4(3)", "4(1_1)", "4(-1_-1_1_1)", "4(2_1)", "4(-2_-1_1_2)", "2(-1)_2(-1)_2(1)_2(1)", "2(-1)_2(-1_1)_2(1)"],
           5: ["5(4)", "5(-4_4)", "5(2_1)", "5(1_2)"], 6: ["6(5)", "6(-5_5)", "6(-1_-2_2_1)", "6(1_2)", "6(2_1)", "2(-1)_3(-2)_3(2)_2(1)", "6(3_1)"],
           7: ["7(6)", "7(-6_6)", "7(2_2)", "7(3_1)"], 8: ["8(1_1_1)", "8(-1_-1_-1_1_1_1)", "8(3_1)", "8(1_3)", "8(7)", "8(-7_7)", "2(-1)_4(-3_3)_2(1)"]}
PORTS_G = {1: [], 2: ["2(1)"], 3: ["3(2)", "3(1_1)"], 4: ["4(3)", "4(1_1)", "4(2_1)", "4(1_2)"], 5: ["5(4)", "5(2_1)", "5(1_2)", "5(1_1_1)"],
           6: ["6(5)", "6(1_2)", "6(2_1)", "6(3_1)", "6(1_1_1)"], 7: ["7(6)", "7(2_2)", "7(3_1)", "7(1_1_1)"], 8: ["8(1_1_1)", "8(3_1)", "8(1_3)", "8(7)"]}
RED = ("allreduce", "reduce", "reduce_scatter", "reduce_scatter_block")

def valid_ports(coll, p):
    return p

def ports(coll, nodes):
    if coll in ("allgather", "allgatherv", "gather", "gatherv"):
        return PORTS_G.get(nodes, [])
    return PORTS_R.get(nodes, [])

def nodes_small(spec):
    return True

def coll_configs(colls, tier):
    deep, wide = [], []
    q = tier == "quick"
    for n, p in TOPO_DEEP + ([] if q else TOPO_DEEP2):
        for c in colls:
            sp = specs(c, n, True)
            if q and n > 4: sp = sp[: max(1, len(sp) // 2)] + sp[-1:]
            for i, s in enumerate(uniq(sp)):
                for nr in (0, 1):
                    if q and n >= 5 and (i + nr) % 2: continue
                    deep.append(f"n={n} ppn={p} {s} {NR[nr]}copyin=0;{p} {H2}")
                if p > 1 and (not q or i % 2 == 0): deep.append(f"n={n} ppn={p} {s} alt=0 copyin=0;{p} {H2}")
                if c in RED:
                    for w in range(1, 2 if q else 4):
                        if p > 1: deep.append(f"n={n} ppn={p} {s} wt={w} {H2}")
    # every collective on two sockets per node
    for n, p, so in ((4, 4, 2), (4, 2, 2), (8, 4, 2), (6, 6, 2), (8, 4, 4), (8, 8, 4)):
        if q and n > 4: continue
        for c in colls:
            if so == 4 and n == p and c in ("allgather", "allgatherv", "gather", "gatherv"): continue     # known finding of C16
            for s in specs(c, n, True):
                for nr in (0, 1): deep.append(f"n={n} ppn={p} sockets={so} {s} {NR[nr]}{H2}")
    # parameter space
    for n, p in TOPO_WIDE + ([] if q else TOPO_WIDE2):
        for c in colls:
            sp = specs(c, n, False, not q)
            for i, s in enumerate(sp):
                if q and n > 8 and i % 3: continue
                wide.append(f"n={n} ppn={p} {s} {H2}")
                if q and n > 6: continue
                wide.append(f"n={n} ppn={p} {s} {NR[1 - i % 2]}alt={(i // 2) % 2} copyin=0;{p} {H2}")
            big = [specs(c, n, True)[0], specs(c, n, True)[-1]]
            for t in ("long", "double", "float"):
                wide.append(f"n={n} ppn={p} {big[-1]} type={t} {H2}")
            if n <= (12 if q else 16):
                nn = n // p
                for ps in ports(c, nn):
                    for i, s in enumerate(big if q else specs(c, n, True)):
                        for nr in ((i % 2,) if q and n > 4 else (0, 1)): wide.append(f"n={n} ppn={p} {s} ports={ps} {NR[nr]}copyin=0;{p} {H2}")
            if c in RED and p > 1:
                for s in ([f"coll={c} count=2", f"coll={c} count=40"] if c in ("allreduce", "reduce", "reduce_scatter_block") else specs(c, n, True)):
                    small = n * 30 < 60 or "count=2" in s
                    for cp in copyins(p, n == p, True, "count=2" in s.split()):
                        if cp.startswith("copyin=1") and n == p: continue
                        wide.append(f"n={n} ppn={p} {s} {cp} {H2}")
                    if n == p:
                        for cp in copyins(p, True, False):
                            if cp.startswith("copyin=1"): wide.append(f"n={n} ppn={p} {s.replace('count=40', 'count=200').replace('count=2 ', 'count=201 ')} {cp} {H2}" if "count=" in s and "=2" != s[-2:] else "")
                    for w in range(0, 5): wide.append(f"n={n} ppn={p} {s} wt={w} {H2}")
            for tp in [d for d in range(1, p) if p % d == 0]:
                for s in big: wide.append(f"n={n} ppn={p} tps={tp} {s} {H2}")
    # larger numbers of ranks and larger messages
    for n, p in TOPO_WIDE2:
        for c in colls:
            a = specs(c, n, True)
            for s in uniq([a[0], a[-1]]) if q else []: wide.append(f"n={n} ppn={p} {s} {H2}")
    for i, (n, p) in enumerate(TOPO_BIG):
        for c in colls:
            for k, m in enumerate((700, 3000) if q else (700, 4000, 12000)):
                for v in ((i + k) % 2,) if q else (0, 1):
                    wide.append(f"n={n} ppn={p} {bigspec(c, n, m, (0, n - 1)[v])} type={('long', 'int', 'double', 'float')[(i + k) % 4]} {NR[v]}{H2}")
    deep = uniq(x for x in deep if x); wide = uniq(x for x in wide if x)
    return deep, [w + " " + WIDE for w in wide]
