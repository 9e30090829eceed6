"""Families of the cross-cutting properties (histories, combinations, modes)."""
import itertools
from families import NR, irr, uniq, ports, RED
H1 = "h=i0.|.s0.w0.f0"
H2 = "h=i0.|.s0.w0.s0.w0.f0"
LIGHT = "opt=light,nodelay"
ALL = ("allreduce", "reduce", "bcast", "allgather", "allgatherv", "reduce_scatter", "reduce_scatter_block", "gather", "gatherv", "scatter", "scatterv")

def spec(c, n, k=0, root=None):
    """one representative call of a collective on n ranks (k varies the size)"""
    r = root if root is not None else (n - 1 if k % 2 else n // 2)
    cnt = (6, 1, 40, 3)[k % 4]
    s = {"allreduce": "count=%d" % cnt, "reduce": "count=%d root=%d" % (cnt, r), "bcast": "count=%d root=%d" % (cnt, r),
         "allgather": "count=%d" % max(1, cnt // 2), "allgatherv": "counts=" + irr(n, k), "reduce_scatter": "counts=" + irr(n, k),
         "reduce_scatter_block": "count=%d" % max(1, cnt // 2), "gather": "count=%d root=%d" % (max(1, cnt // 2), r), "gatherv": "counts=%s root=%d" % (irr(n, k), r),
         "scatter": "count=%d root=%d" % (max(1, cnt // 2), r), "scatterv": "counts=%s root=%d" % (irr(n, k), r)}[c]
    return "coll=%s %s" % (c, s)

def num(s, i):
    return " ".join(w.replace("=", "%d=" % i, 1) for w in s.split())

TP = [(2, 1), (2, 2), (3, 1), (3, 3), (4, 1), (4, 2), (4, 4)]
TP6 = TP + [(5, 5), (6, 2), (6, 3)]
TP9 = TP6 + [(6, 6), (7, 1), (8, 2), (8, 4), (9, 3)]

def rounds(tier):
    q = tier == "quick"; deep, wide = [], []
    for n, p in (TP6 if q else TP9):
        for c in ALL:
            for k in range(1 if q else 3):
                s = spec(c, n, k + (n % 2))
                for a in (("", "alt=0 ") if p > 1 else ("",)):
                    if n <= (4 if q else 8):
                        deep.append(f"n={n} ppn={p} {s} {a}h=i0.|.s0.w0.s0.w0.s0.w0.s0.w0.f0")
                    for nr in NR:
                        wide.append(f"n={n} ppn={p} {s} {a}{nr}h=i0.|" + ".s0.w0" * 9 + f".f0 {LIGHT}")
                # initialised again after it was freed
                wide.append(f"n={n} ppn={p} {s} h=i0.|.s0.w0.s0.w0.f0.i0.s0.w0.s0.w0.f0.i0.s0.w0.f0 {LIGHT}")
                wide.append(f"n={n} ppn={p} {s} comm=dup h=i0.|.s0.w0.f0.i0.s0.w0.s0.w0.f0.c0.i0.s0.w0.f0 {LIGHT}")
    return [("rounds", deep), ("many rounds and re-creation", wide)]

def concurrent(tier):
    q = tier == "quick"; deep, wide = [], []
    for n, p in ([(2, 1), (2, 2), (3, 1), (4, 2)] if q else TP):
        for a, b in itertools.combinations_with_replacement(ALL, 2):
            A, B = num(spec(a, n, 0), 0), num(spec(b, n, 1), 1)
            o = deep if n <= 2 or not q else wide
            x = "" if o is deep else " " + LIGHT
            o.append(f"n={n} ppn={p} ops=2 {A} {B} h=i0.i1.|.s0.s1.w0.w1.s1.s0.w0.w1.f0.f1{x}")
            o.append(f"n={n} ppn={p} ops=2 {A} {B} comm1=dup h=i0.i1.|.s0.s1.w1.w0.f0.s1.w1.f1{x}")
    for n, p in [(4, 1), (4, 2), (4, 4), (6, 2), (6, 3)] + ([] if q else [(8, 2), (8, 4), (6, 6)]):
        for cm in ("dup", "evenodd", "halves", "rev", "node", "sub:0,1", "sub:1,3", "sub:3,0,2"):
            for c in ALL:
                s = spec(c, 2, 0, 0) if cm.startswith("sub:") or True else ""
                wide.append(f"n={n} ppn={p} comm={cm} {s} {H2} {LIGHT}")
                if True: wide.append(f"n={n} ppn={p} comm={cm} commvia=lib {s} h=i0.|.s0.w0.s0.w0.f0.c0 {LIGHT}")
        # three operations on three communicators that overlap
        for a, b, c in itertools.islice(itertools.permutations(ALL, 3), 0, None, 45 if q else 9):
            A, B, D = num(spec(a, n, 0), 0), num(spec(b, 2, 1, 0), 1), num(spec(c, 2, 0, 0), 2)
            wide.append(f"n={n} ppn={p} ops=3 {A} {B} {D} comm1=evenodd comm2=halves h=i0.i1.i2.|.s2.s0.s1.w0.w1.w2.s1.s0.s2.w0.w1.w2.f0.f2.f1 {LIGHT}")
    # communicators that do not share their first rank, with slots of freed operations used again:
    # the ranks then have different numbers of earlier operations and keep them in different places
    for n, p, sub0, sub1, one in ((4, 1, "1,3", "1,2,3", "0"), (4, 1, "1,2", "3,1,2", "0"), (4, 2, "2,3", "1,2,3", "0"), (3, 1, "1", "1,2", "0"), (4, 4, "1,3", "1,2,3", "0")):
        for a, b in itertools.product(ALL if not q else ("allreduce", "bcast", "gather", "reduce_scatter_block"), repeat=2):
            A, P, B = num(spec(a, 2, 0, 0), 1), num("coll=allreduce count=1", 0) + " " + num("coll=allreduce count=2", 2), num(spec(b, n, 1), 3)
            if "counts" in A: A = num("coll=%s count=3" % a, 1)
            for k in (0, 1, 2):
                pre = "i0.i1." + "i2.f2." * k + "f0.i3.|"
                wide.append(f"n={n} ppn={p} ops=4 {P} {A} {B} comm0=sub:{sub0} comm1=sub:{sub1} comm2=sub:{one} h={pre}.s1.s3.w1.w3.s3.s1.w1.w3.s1.s3.w3.w1.f1.f3 {'opt=light' if p == 1 and k == 1 and (n < 4 or not q) else LIGHT}")
                if not q or (a == b and k == 1): wide.append(f"n={n} ppn={p} ops=4 {P} {A} {B} comm0=sub:{sub0} comm1=sub:{sub1} comm2=sub:{one} h={pre}.s1.s3.w1.w3.f1.f3 h@1={pre}.s3.s1.w3.w1.f1.f3 {'' if p == 1 else LIGHT}")
    return [("pairs of operations", deep), ("communicators and combinations", wide)]

def terminate(tier):
    q = tier == "quick"; deep = []
    for n, p in (TP if q else TP9):
        for c in ALL:
            s = spec(c, n, 1 if q else n)
            for a in (("", "alt=0 ") if p > 1 else ("",)):
                deep.append(f"n={n} ppn={p} {s} {a}h=i0.|.s0.w0.s0.w0.s0.w0.f0")
            nn = n // p
            for ps in ports(c, nn)[: 3 if q else None]:
                for nr in NR: deep.append(f"n={n} ppn={p} {s} {nr}ports={ps} copyin=0;{p} {H2}")
    for n, p in TP[:6]:
        for a, b in itertools.combinations_with_replacement(("allreduce", "bcast", "gatherv", "reduce_scatter"), 2):
            A, B = num(spec(a, n, 0), 0), num(spec(b, n, 1), 1)
            deep.append(f"n={n} ppn={p} ops=2 {A} {B} h=i0.i1.|.s0.s1.w0.w1.f0.f1 h@0=i0.i1.|.s1.s0.w1.w0.f0.f1")
    return [("termination", deep)]

def inplace(tier):
    q = tier == "quick"; deep, wide = [], []
    for n, p in (TP6 if q else TP9):
        for cnt in (1, 6, 40):
            for nr in NR:
                if q and nr and cnt == 6: continue
                deep.append(f"n={n} ppn={p} coll=allreduce count={cnt} inplace=1 {nr}{H2}")
                deep.append(f"n={n} ppn={p} coll=reduce count={cnt} root={n - 1} inplace=1 {nr}{H2}")
        for cnt in (0, 2, 3, 5, 8, 13, 17, 33, 64, 200):
            for r in (range(n) if n <= 4 or not q else (0, n - 1)): wide.append(f"n={n} ppn={p} coll=reduce count={cnt} root={r} inplace=1 {H2} {LIGHT}")
            for t in ("int", "double"): wide.append(f"n={n} ppn={p} coll=allreduce count={cnt} type={t} inplace=1 {H2} {LIGHT}")
            wide.append(f"n={n} ppn={p} coll=allreduce count={cnt} inplace=1 alt=0 copyin=0;{p} {H2} {LIGHT}")
        for c in ("allreduce", "reduce"):
            for ps in ports(c, n // p):
                for nr in NR: wide.append(f"n={n} ppn={p} {spec(c, n, 0)} inplace=1 {nr}ports={ps} copyin=0;{p} {H2} {LIGHT}")
    return [("in place", deep), ("in place, parameters", wide)]

def waittest(tier):
    q = tier == "quick"; deep, wide = [], []
    for n, p in (TP if q else TP6):
        for c in ALL:
            s = spec(c, n, 0)
            deep.append(f"n={n} ppn={p} {s} h=i0.|.s0.t0.s0.t0.f0")
            deep.append(f"n={n} ppn={p} {s} h=i0.|.s0.T0.w0.s0.T0.T0.w0.f0")
            wide.append(f"n={n} ppn={p} {s} h=i0.|.w0.T0.s0.w0.w0.T0.s0.t0.T0.w0.f0 status=1 {LIGHT}")   # inactive requests
    for n, p in TP[:4 if q else None]:
        for c in ("allreduce", "bcast"):
            for m in "WAOanm":
                for l in ("0+1", "1+0", "0+N+1", "0+1+2"):
                    s2 = "s2." if "2" in l else ""
                    for st in (0, 1):
                        x = "" if n <= 2 and not st else " " + LIGHT
                        deep.append(f"n={n} ppn={p} ops=3 {spec(c, n, 0)} comm2=dup status={st} h=i0.i1.i2.|.s0.s1.{s2}{m}{l}.s0.s1.{m}0+1.f0.f1.f2{x}")
    # ranks that complete the same operation in different ways, start many with one call, inspect without completing
    mixed = []
    base = "i0.|.s0.%s0.s0.%s0.s0.%s0.f0"
    for n, p in (TP + [(5, 5), (6, 3)] if q else TP9):
        for c in ALL:
            s = spec(c, n, 0)
            x = "" if n <= 2 else " " + LIGHT
            for k in range(2 if n < 3 else 3):
                alt = base % tuple("twt"[k:] + "twt"[:k]); oth = base % tuple("wtw"[k:] + "wtw"[:k])
                who = {0: range(0, 1), 1: range(1, n), 2: range(0, n, 2)}[k]
                mixed.append(f"n={n} ppn={p} {s} h={alt} " + " ".join(f"h@{r}={oth}" for r in who) + x)
            mixed.append(f"n={n} ppn={p} {s} h=i0.|.s0.g0.w0.s0.T0.g0.t0.s0.w0.g0.f0{x}")
            mixed.append(f"n={n} ppn={p} {s} h=i0.|.s0.g0.w0.s0.g0.w0.f0 h@{n - 1}=i0.|.s0.w0.s0.t0.f0{x}")
            mixed.append(f"n={n} ppn={p} ops=2 {s} comm1=dup h=i0.i1.|.S0+1.w0.w1.S1+0.t1.w0.f0.f1{x}")
            mixed.append(f"n={n} ppn={p} {s} initthread=1 h=i0.|.S0.w0.S0.t0.f0 {LIGHT}")
    return [("test and wait", deep), ("inactive requests", wide), ("mixed completion", mixed)]

def memory(tier):
    q = tier == "quick"; wide = []
    for n, p in (TP6 if q else TP9 + [(5, 1), (7, 7), (8, 8), (10, 5), (12, 3)]):
        for c in ALL:
            for k in range(2 if q else 4):
                s = spec(c, n, k)
                for al in ("", "algn=1 "):
                    for t in ("int", "double"):
                        wide.append(f"n={n} ppn={p} {s} {al}type={t} {NR[k % 2]}{H2} {LIGHT}")
            for ps in ports(c, n // p):
                for k in (0, 1): wide.append(f"n={n} ppn={p} {spec(c, n, k)} {NR[k]}ports={ps} copyin=0;{p} {H2} {LIGHT}")
        for s in (f"coll=reduce count=9 root={n - 1}", f"coll=gather count=3 root={n // 2}", f"coll=scatter count=3 root={n - 1}", f"coll=reduce count=1 root=0"):
            for nr in NR:
                wide.append(f"n={n} ppn={p} {s} {nr}nullrecv=1 {H2} {LIGHT}")
                for ps in ports(s.split()[0][5:], n // p): wide.append(f"n={n} ppn={p} {s} {nr}ports={ps} copyin=0;{p} nullrecv=1 {H2} {LIGHT}")
    return [("memory", wide)]

def sendbufs(tier):
    q = tier == "quick"; wide = []
    for n, p in (TP6 if q else TP9):
        for c in ALL:
            for k in range(2 if q else 4):
                for nr in NR: wide.append(f"n={n} ppn={p} {spec(c, n, k)} {nr}chkinit=1 {H2} {LIGHT}")
                wide.append(f"n={n} ppn={p} {spec(c, n, k)} chkinit=1 debug=1 {H2} {LIGHT}")
            for ps in ports(c, n // p):
                for k in (0, 1): wide.append(f"n={n} ppn={p} {spec(c, n, k)} {NR[k]}ports={ps} copyin=0;{p} {H2} {LIGHT}")
    return [("send buffers", wide)]

def debugmode(tier):
    q = tier == "quick"; deep, wide = [], []
    for n, p in (TP6 if q else TP9):
        for c in ALL:
            for k in range(2 if q else 4):
                s = spec(c, n, k)
                wide.append(f"n={n} ppn={p} {s} debug=1 chkinit=1 {H2} {LIGHT}")
                wide.append(f"n={n} ppn={p} {s} debug=1 verbose=1 {H2} {LIGHT}")
                if c in ("allreduce", "reduce"): wide.append(f"n={n} ppn={p} {s} debug=1 chkinit=1 inplace=1 {H2} {LIGHT}")
                for t in ("long", "double", "float"): wide.append(f"n={n} ppn={p} {s} type={t} debug=1 {H1} {LIGHT}")
            wide.append(f"n={n} ppn={p} comm=rev {spec(c, n, 0)} debug=1 {H1} {LIGHT}")
            wide.append(f"n={n} ppn={p} comm=evenodd {spec(c, 1, 0, 0)} debug=1 {H1} {LIGHT}")
            wide.append(f"n={n} ppn={p} {spec(c, n, 0)} env:EXT_MPI_DEBUG=0 {H1} {LIGHT}")
            if n <= 3: deep.append(f"n={n} ppn={p} {spec(c, n, 0)} debug=1 {H2}")
    return [("self check", deep), ("self check, parameters", wide)]

def release(tier):
    q = tier == "quick"; wide = []
    for n, p in (TP6 if q else TP9):
        for c in ALL:
            s = spec(c, n, n % 3)
            wide.append(f"n={n} ppn={p} {s} {H2}" if n <= 4 else f"n={n} ppn={p} {s} {H2} {LIGHT}")
            wide.append(f"n={n} ppn={p} {s} alt=0 h=i0.|.s0.w0.f0.i0.s0.w0.f0 {LIGHT}")
            wide.append(f"n={n} ppn={p} {s} h=i0.|.f0 {LIGHT}")
            wide.append(f"n={n} ppn={p} ops=2 {s} comm1=dup h=i0.i1.|.s0.s1.w0.w1.f1.s0.w0.f0.c1 {LIGHT}")
            wide.append(f"n={n} ppn={p} ops=2 {s} comm1=evenodd counts1= count1=3 root1=0 h=i0.i1.|.s0.s1.w0.w1.f0.s1.w1.f1 {LIGHT}")
            wide.append(f"n={n} ppn={p} {s} debug=1 h=i0.|.s0.w0.f0 {LIGHT}")
        for so in (2, 4):
            if p % so == 0: wide.append(f"n={n} ppn={p} sockets={so} {spec('allreduce', n, 0)} {H2} {LIGHT}")
    return [("resources", wide)]

def lifecycle(tier):
    q = tier == "quick"; wide = []
    # many requests alive at once (handle table growth), created while others are in flight
    def many(n, p, s, m, inflight, order):
        t = ["i0", "s0"] if inflight else ["i0"]
        t += ["i%d" % i for i in range(1, m)]
        if inflight: t += ["w0", "s0", "w0"]
        t += ["|"]
        for i in range(m - 4, m): t += ["s%d" % i]
        for i in range(m - 4, m): t += ["w%d" % i]
        fr = list(range(m)) if order == "fifo" else list(range(m))[::-1] if order == "lifo" else list(range(0, m, 2)) + list(range(1, m, 2))
        for i in fr: t += ["f%d" % i]
        return f"n={n} ppn={p} ops={m} {s} h=" + ".".join(t) + " " + LIGHT
    for n, p in [(2, 1), (2, 2), (3, 3), (4, 2)]:
        for m in ((52, 53) if q else (49, 50, 51, 52, 53, 60, 101, 110)):
            for fl in (0, 1):
                for order in (("fifo", "lifo", "mixed") if fl or not q else ("fifo",)):
                    for c in ("allreduce", "bcast"):
                        wide.append(many(n, p, spec(c, n, 1), m, fl, order))
    # long create/free histories (slots are recycled)
    for n, p in [(2, 1), (2, 2)]:
        for m in ((300,) if q else (300, 600)):
            wide.append(f"n={n} ppn={p} {spec('allreduce', n, 1)} h=[i0.s0.w0.f0]*{m}.| {LIGHT}")
            wide.append(f"n={n} ppn={p} ops=2 {spec('bcast', n, 1)} h=i1.[i0.s0.s1.w0.w1.f0]*{m}.f1.| {LIGHT}")
            wide.append(f"n={n} ppn={p} {spec('allreduce', n, 1)} h=p1.[i0.f0.p1]*{m}.| {LIGHT}")
    # more live requests than the table of requests has lines, removed in different orders
    for c, x in (("allreduce", "count=1"), ("bcast", "count=1 root=1")):
        for m in ((257, 270) if q else (250, 256, 257, 258, 270, 300, 511, 513)):
            wide.append(f"n=2 ppn=1 ops={m} coll={c} {x} h=i0-{m - 1}.|.s0.w0.s{m - 1}.w{m - 1}.f0-{m - 1} {LIGHT} cpu=200")
            wide.append(f"n=2 ppn=1 ops={m} coll={c} {x} h=i0-{m - 1}.|.s0.w0.s{m - 1}.w{m - 1}.f{m - 1}-0 {LIGHT} cpu=200")
        wide.append(f"n=2 ppn=1 ops=256 coll={c} {x} h=i0-255.f0-255.p1.i3.|.s3.w3.f3.p2 {LIGHT} cpu=200")
        wide.append(f"n=2 ppn=1 ops=256 coll={c} {x} h=i0-255.p1.f0-255.|.p2 {LIGHT} cpu=200")
        for k in (2, 3, 5, 17): wide.append(f"n=2 ppn=1 ops={k} coll={c} {x} h=i0-{k - 1}.f0.|.s{k - 1}.w{k - 1}.i0.s0.w0.f{k - 1}.s0.w0.f0" + "".join(f".f{z}" for z in range(1, k - 1)) + f".p2 {LIGHT}")
    # requests of which some are freed while the others stay in use, with different spacings of the handles of the MPI library
    for n, p in [(2, 1), (2, 2)] + ([] if q else [(3, 1), (4, 2)]):
        for c in ("allreduce", "bcast", "gather"):
            for st in (384, 256, 2040, 8):
                for m in ((3, 12, 130) if q else (2, 3, 4, 5, 6, 12, 40, 130)):
                    if m > 12 and (c != "allreduce" or st == 8): continue
                    ev, od = list(range(0, m, 2)), list(range(1, m, 2)); h = m // 2
                    for a, b in ((ev, od), (od, ev), (list(range(h)), list(range(h, m))), (list(range(h, m)), list(range(h)))):
                        x = [f"i0-{m - 1}.|"] + [f"f{i}" for i in a] + [f"s{i}.w{i}" for i in b] + [f"i{i}" for i in a] + [f"s{i}" for i in range(m)] + [f"w{i}" for i in range(m)] + [f"f{i}" for i in b] + [f"s{i}.w{i}.f{i}" for i in a] + ["p2"]
                        wide.append(f"n={n} ppn={p} ops={m} {spec(c, n, 1)} reqstride={st} h={'.'.join(x)} {LIGHT} cpu=200")
    return [("lifecycle", wide)]

def outlive(tier):
    """communicators freed while operations created on them live on; handles of the MPI library reused for other communicators"""
    q = tier == "quick"; deep, wide = [], []
    for n, p in (TP + [(6, 3)] if q else TP9):
        for c in ALL:
            for v in ("", "commvia=lib "):
                s = spec(c, n, 0)
                (deep if n <= (3 if q else 6) else wide).append(f"n={n} ppn={p} {s} comm=dup {v}h=i0.x0.|.s0.w0.s0.w0.f0" + (f" {LIGHT}" if n > (3 if q else 6) else ""))
                wide.append(f"n={n} ppn={p} {s} comm=rev {v}commreuse=1 h=i0.s0.w0.f0.x0.|.b {LIGHT}".replace(".x0.|.b", ".c0.i0.x0.|.s0.w0.s0.w0.f0"))
            for k, (a, b) in enumerate((("rev", "dup"), ("evenodd", "rev"), ("dup", "halves"), ("halves", "evenodd"))):
                if n < 3 and k: continue
                d = ALL[(ALL.index(c) + 1 + 3 * k) % len(ALL)]
                A, B = num(spec(c, 2 if a in ("evenodd", "halves") else n, k, 0), 0), num(spec(d, 2 if b in ("evenodd", "halves") else n, 1, 0), 1)
                for r in ("", "commreuse=1 "):
                    if n <= 4 or not q: wide.append(f"n={n} ppn={p} ops=2 {A} {B} comm0={a} comm1={b} {r}h=i0.x0.i1.|.s0.w0.s1.w1.s1.s0.w0.w1.x1.s0.s1.w1.w0.f0.f1 {LIGHT}")
                    wide.append(f"n={n} ppn={p} ops=2 {A} {B} comm0={a} comm1={b} {r}h=i0.s0.w0.f0.x0.i1.x1.|.s1.w1.s1.w1.f1 {LIGHT}")
    return [("communicator freed before the operation runs", deep), ("handles reused", wide)]

def passthrough(tier):
    q = tier == "quick"; deep = []
    for n, p in (TP if q else TP6):
        for c in ALL:
            deep.append(f"n={n} ppn={p} {spec(c, n, 0)} h=i0.|.p5.s0.p0.w0.p1.s0.w0.f0.p7")
    # the user's receives and sends in the same lists as collective requests
    lists = []
    for n, p in (TP if q else TP9):
        for c in (("allreduce", "bcast", "gatherv") if q else ALL):
            sp = spec(c, n, 0); x = "" if n <= 2 else " " + LIGHT
            for m in "WAOanm":
                for l in ("0+R0+S0", "R3+0+S3", "S3+R3+0", "P3+0+Q3", "0+Q0+P0", "N+P1+R2+0+S2+Q1"):
                    for st in (0, 1):
                        lists.append(f"n={n} ppn={p} {sp} status={st} h=i0.|.s0.{m}{l}.s0.{m}{l}.f0{x}")
            lists.append(f"n={n} ppn={p} ops=2 {sp} h=i0.i1.|.S0+P0+1+Q0.w1.w0.SQ0+P0+1.w1.f0.f1{x}")
    return [("user messages", deep), ("user requests in lists", lists)]

def selfcheck(tier):
    """one element of the reference result of the self check differs, for every process and every element: the creation must fail"""
    q = tier == "quick"; wide = []
    def pos(total, quick=q):
        ks = range(total // 8)
        for e in ks:
            for b in (range(8) if not quick else (e % 8,)): yield 8 * e + b
    for n, p in (TP + [(6, 3)] if q else TP9):
        for c in ALL:
            for ty, es in (("long", 8), ("double", 8), ("int", 4)):
                if ty != "long" and c in ("reduce", "reduce_scatter", "reduce_scatter_block"): continue   # the self check looks at long sums only
                m = 1 if es == 8 else 2
                for k in ((0,) if q else (0, 1, 2)):
                    vc = [m * x for x in ([1, 3, 2, 0, 5, 2, 1, 4, 2][:n] if k != 1 else [4] * n)]; cnt = m * (5, 1, 16)[k]; root = (n - 1, 0, n // 2)[k]
                    for cm in ("", "comm=dup "):
                        if cm and (q and (c, ty) not in (("allreduce", "long"), ("gather", "double"), ("scatterv", "long"))): continue
                        base = f"n={n} ppn={p} coll={c} type={ty} {cm}" + (f"root={root} " if c in ("reduce", "bcast", "gather", "gatherv", "scatter", "scatterv") else "") + ("counts=%s" % ",".join(map(str, vc)) if c in ("allgatherv", "gatherv", "scatterv", "reduce_scatter") else f"count={cnt}") + " debug=1"
                        for r in range(n):
                            if c in ("reduce", "gather", "gatherv") and r != root: continue
                            if c == "bcast" and r == root: continue
                            tot = es * {"allreduce": cnt, "reduce": cnt, "bcast": cnt, "scatter": cnt, "reduce_scatter_block": cnt, "scatterv": vc[r], "reduce_scatter": vc[r], "allgather": n * cnt, "gather": n * cnt}.get(c, sum(vc))
                            for b in pos(tot): wide.append(f"{base} wrongref={r}:{b}:{tot} h=i0.b.f0")
                            if ty == "long" or not q:
                                el = tot // 8
                                for x in range(el):
                                    for y in range(x + 1, el) if not q else {x + 1, (x + el // 2) % el, el - 1}:
                                        if y > x and y < el: wide.append(f"{base} wrongref={r}:{8 * x}:{tot}:{8 * y} h=i0.b.f0")
    # communicators whose ranks are not those of MPI_COMM_WORLD, and receive blocks that lie apart or in another order
    for n, p in ((4, 1), (4, 4)) if q else ((3, 1), (4, 1), (4, 2), (4, 4), (6, 3)):
        for c in ALL:
            for ty, es in (("long", 8),) if q else (("long", 8), ("double", 8)):
                if ty != "long" and c in ("reduce", "reduce_scatter", "reduce_scatter_block"): continue
                for cm, mem in (("rev", list(range(n))[::-1]), ("sub:" + ",".join(map(str, range(1, n))), list(range(1, n))), ("sub:2,0", [2, 0])):
                    m = len(mem); vc = [2, 1, 3, 1, 2, 1][:m]; cnt = 2
                    for root in (range(m) if c in ("reduce", "bcast", "gather", "gatherv", "scatter", "scatterv") else (0,)):
                        gap = [sum(vc[:k]) + k + 1 for k in range(m)]; rvd = [sum(vc[k + 1:]) for k in range(m)]
                        for dis in (("", " displs=" + ",".join(map(str, gap)), " displs=" + ",".join(map(str, rvd))) if c in ("allgatherv", "gatherv") else ("",)):
                            base = f"n={n} ppn={p} coll={c} type={ty} comm={cm} root={root} " + ("counts=%s" % ",".join(map(str, vc)) if c in ("allgatherv", "gatherv", "scatterv", "reduce_scatter") else f"count={cnt}") + f"{dis} debug=1"
                            for k, r in enumerate(mem):
                                if c in ("reduce", "gather", "gatherv") and k != root: continue
                                if c == "bcast" and k == root: continue
                                tot = es * {"allreduce": cnt, "reduce": cnt, "bcast": cnt, "scatter": cnt, "reduce_scatter_block": cnt, "scatterv": vc[k], "reduce_scatter": vc[k], "allgather": m * cnt, "gather": m * cnt}.get(c, sum(vc))
                                for e in range(tot // 8): wide.append(f"{base} wrongref={r}:{8 * e + (e % 8)}:{tot} h=i0.b.f0")
    # the creation of another operation before it leaves the self check on
    for n, p in ((2, 1), (3, 1), (4, 2)) if q else TP6:
        for c in ALL:
            for d in ALL:
                if d == c or {c, d} in ({"allgather", "allgatherv"}, {"gather", "gatherv"}, {"scatter", "scatterv"}, {"reduce_scatter", "reduce_scatter_block"}): continue
                vc = [2, 1, 3, 1, 2, 1][:n]; r = 0
                tot = 8 * {"allreduce": 2, "reduce": 2, "bcast": 2, "scatter": 2, "reduce_scatter_block": 2, "scatterv": vc[r], "reduce_scatter": vc[r], "allgather": n * 2, "gather": n * 2}.get(c, sum(vc))
                f = lambda x, k: f"coll{k}={x} " + (f"counts{k}=%s" % ",".join(map(str, vc)) if x in ("allgatherv", "gatherv", "scatterv", "reduce_scatter") else f"count{k}=2") + f" root{k}={1 if x == 'bcast' else 0}"
                wide.append(f"n={n} ppn={p} ops=2 type=long {f(c, 0)} {f(d, 1)} debug=1 wrongref={r}:{tot - 8}:{tot} h=i1.i0.b.f0.f1")
                wide.append(f"n={n} ppn={p} ops=2 type=long {f(c, 0)} {f(d, 1)} debug=1 wrongref={r}:0:{tot} h=i1.s1.w1.f1.b.i0.b.f0")
    return [("wrong reference", wide)]

def blockingcalls(tier):
    q = tier == "quick"; deep = []
    for n, p in (TP if q else TP6):
        for s in ("coll=allreduce count=6", "coll=allgather count=3", "coll=reduce_scatter_block count=3"):
            for t in ("int", "double"):
                deep.append(f"n={n} ppn={p} {s} type={t} h=|.B0.B0.B0")
            deep.append(f"n={n} ppn={p} {s} comm=dup h=|.B0.B0.B0.c0")
            deep.append(f"n={n} ppn={p} ops=2 {s} comm1=evenodd h=i0.|.B1.s0.B1.w0.s0.w0.f0.B1")
    return [("blocking calls", deep)]

def fortran(tier):
    q = tier == "quick"; wide = []
    for n, p in (TP if q else TP6):
        for t, ft in (("int", "integer"), ("int", "integer4"), ("float", "real"), ("float", "real4"), ("double", "double"), ("double", "real8"), ("long", "integer8")):
            for f in (1, 2):
                for cnt in (1, 6, 40): wide.append(f"n={n} ppn={p} coll=allreduce count={cnt} type={t} f08={f} ftype={ft} {H2} {LIGHT}")
                wide.append(f"n={n} ppn={p} coll=allreduce count=6 type={t} inplace=1 f08={f} ftype={ft} {H2} {LIGHT}")
        for c in ALL if not q else ("allreduce", "bcast", "allgatherv", "reduce_scatter"):
            for cm in ("dup", "evenodd", "rev", "node", "sub:1,0"):
                if (cm == "node" and p == 1) or (cm == "evenodd" and n < 3): continue
                x = "" if c != "allreduce" else " f08=1 ftype=integer"
                if c == "allreduce" or not x: wide.append(f"n={n} ppn={p} {spec(c, 2, 0, 0)} comm={cm} commvia=f08{x} h=i0.|.s0.w0.s0.w0.f0.c0 {LIGHT}")
                if x: wide.append(f"n={n} ppn={p} ops=2 f08=1 ftype=integer {num(spec(c, 2, 0, 0), 0)} {num(spec(c, n, 1), 1)} comm0={cm} commvia=f08 h=i0.i1.|.s0.s1.w1.w0.s1.s0.w0.f0.c0.w1.s1.w1.f1 {LIGHT}")
    return [("fortran", wide)]

# ---------------------------------------------------------------- settings
PH = "h=i0.i1.i2.|.s0.w0.s1.w1.s2.w2.f0.f1.f2 opt=light,nodelay pats=1"

def setting_list(c, n, p):
    """single settings and pairs of them that are valid for the collective"""
    o = ["alt=%d copyin=0;%d" % (a, p) for a in (0, 1)] + ["notrec=1 copyin=0;%d" % p]
    for ps in ports(c, n // p): o += ["ports=%s copyin=0;%d" % (ps, p), "ports=%s notrec=1 alt=0 copyin=0;%d" % (ps, p)]
    if p > 1 and c in RED:
        from families import copyins
        for cp in copyins(p, n == p, False):
            if not (cp.startswith("copyin=1") and n == p): o.append(cp)
    for t in range(1, p):
        if p % t == 0: o.append("tps=%d copyin=0;%d" % (t, t))
    if c == "allreduce" and n == p * (n // p) and n // p in (2, 3, 4, 5, 6, 8): o.append("mincomp=1 copyin=0;%d" % p)
    for so in (2, 4):
        if p % so == 0 and not (so == 4 and n == p and c in ("allgather", "allgatherv", "gather", "gatherv")): o.append("sockets=%d copyin=0;%d" % (so, p // so))
    return uniq(o)

TPS = [(2, 1), (2, 2), (3, 1), (4, 1), (4, 2), (4, 4)]
def settings(tier):
    q = tier == "quick"; wide = []
    for n, p in (TP6 if q else TP9):
        for c in ALL:
            for k in ((0,) if q else (0, 1, 2)):
                s = spec(c, n, k)
                for i, x in enumerate(setting_list(c, n, p)):
                    for via in ("", "via=info "):
                        if via and x.startswith("mincomp"): continue
                        if q and n > 3 and (i + ALL.index(c)) % 2 == (1 if via else 0): continue
                        wide.append(f"n={n} ppn={p} {s} {via}{x} {H2} {LIGHT}")
                wide.append(f"n={n} ppn={p} {s} verbose=1 {H2} {LIGHT}")
                for bits in ("bitrep=0", "bitrep=1", "bitid=1"): wide.append(f"n={n} ppn={p} {s} {bits} via=info {H2} {LIGHT}")
    # one call with an info object between two without
    for n, p in TP:
        for c in ALL:
            s = spec(c, n, 0)
            for k, x in enumerate(setting_list(c, n, p)):
                if q and n > 3 and (k + ALL.index(c)) % 2: continue
                wide.append(f"n={n} ppn={p} ops=3 {s} via=info infoop=1 {x} h=i0.i1.i2.|.s0.s1.s2.w2.w1.w0.{'s1.s0.w0.w1' if q and n > 3 else 's2.s1.s0.w0.w1.w2'}.f1.f0.f2 {LIGHT}")
            # every call with settings of its own
            ss = setting_list(c, n, p)
            for k, x in enumerate(ss):
                if q and n > 3 and (k + ALL.index(c)) % 2 == 0: continue
                f = lambda i, z: " ".join(f"i{i}:{w}" for w in z.split())
                y = ss[(k + 1) % len(ss)]
                for kp in () if x == y else ("", "infokeep=1 ") if not q else (("", "infokeep=1 ")[(k + 1) % 2],):
                    wide.append(f"n={n} ppn={p} ops=3 {s} {kp}{f(0, x)} {f(2, y)} h=i0.i1.i2.|.s0.s1.s2.w2.w1.w0.{'s1.s0.w0.w1' if q and n > 3 else 's2.s1.s0.w0.w1.w2'}.f1.f0.f2 {LIGHT}")
    return [("settings", wide)]

def setting_pairs(tier):
    """a setting in an info object acts like the same setting in the environment, on its own call only; different settings select different algorithms"""
    out = []
    for n, p in TPS + ([(6, 2), (6, 3), (5, 1)] if tier != "quick" else []):
        for c in ALL:
            s = spec(c, n, 0); base = f"n={n} ppn={p} ops=3 {s}"
            for x in setting_list(c, n, p):
                if "mincomp" in x: continue
                env, inf, one = f"{base} {x} {PH}", f"{base} via=info {x} {PH}", f"{base} via=info infoop=1 {x} {PH}"
                for op in (0, 2): out.append((one, op, f"{base} {PH}", op, True, "a setting in an info object affects only its own call"))
                if "ports" in x and "notrec" not in x: continue     # whether a forced scheme recurses is the library's choice
                out.append((env, 0, inf, 0, True, "a setting acts the same through info and environment"))
                out.append((one, 1, env, 1, True, "a setting acts the same through info and environment"))
    # every call takes its own settings: info objects with different contents, and one object whose contents change between the calls
    for n, p in TPS if tier == "quick" else TP6:
        for c in ALL:
            base = f"n={n} ppn={p} ops=3 {spec(c, n, 0)}"
            ss = [x for x in setting_list(c, n, p) if "mincomp" not in x]
            for k, x in enumerate(ss):
                y = ss[(k + 1) % len(ss)]
                if x == y: continue
                f = lambda i, z: " ".join(f"i{i}:{w}" for w in z.split())
                for kp in ("", "infokeep=1 ") if tier != "quick" else (("", "infokeep=1 ")[k % 2],):
                    both = f"{base} {kp}{f(0, x)} {f(2, y)} {PH}"
                    out.append((both, 0, f"{base} {f(0, x)} {PH}", 0, True, "a call uses the settings of its own info object"))
                    out.append((both, 2, f"{base} {f(2, y)} {PH}", 2, True, "a call uses the settings of its own info object"))
                    out.append((both, 1, f"{base} {PH}", 1, True, "a setting in an info object affects only its own call"))
    # a port scheme means the same whether its numbers are separated by blanks or by commas
    for n, p in ((4, 1), (6, 1), (4, 2)) + (() if tier == "quick" else ((8, 2), (8, 1), (9, 1), (12, 1), (9, 3), (12, 2))):
        for c in ALL:
            for ps in ports(c, n // p):
                base = f"n={n} ppn={p} ops=3 {spec(c, n, 0)} copyin=0;{p}"
                for v in ("", "via=info ") if tier != "quick" or p == 1 and n == 4 else ("",):
                    for f in (ps.replace("_", ","), "_" + ps.replace("_", ",_").replace("(", "(_") + "_", ps.replace("_", "__").replace("(", "_(") + ","):
                        out.append((f"{base} {v}ports={f} {PH}", 0, f"{base} {v}ports={ps} {PH}", 0, True, "the separators in a port scheme do not change its meaning"))
    for n, a, b in ((4, "4(3)", "4(1_1)"),):
        for c in ALL:
            for v in ("", "via=info "):
                out.append((f"n={n} ppn=1 ops=3 {spec(c, n, 0)} {v}ports={a} notrec=1 {PH}", 0, f"n={n} ppn=1 ops=3 {spec(c, n, 0)} {v}ports={b} notrec=1 {PH}", 0, False, "different port schemes select different message patterns"))
    for c in ALL:
        for v in ("", "via=info "):
            out.append((f"n=4 ppn=4 ops=3 {spec(c, 4, 0)} {v}tps=2 copyin=0;2 {PH}", 0, f"n=4 ppn=4 ops=3 {spec(c, 4, 0)} {v}tps=4 copyin=0;2 {PH}", 0, False, "the number of tasks per socket selects the message pattern"))
            out.append((f"n=4 ppn=2 ops=3 {spec(c, 4, 0)} {v}alt=0 copyin=0;2 {PH}", 0, f"n=4 ppn=2 ops=3 {spec(c, 4, 0)} {v}alt=1 copyin=0;2 {PH}", 0, False, "alternating buffers select another buffer layout"))
    return out

def rankenv(tier):
    """the first rank's environment governs all ranks"""
    wide = []
    for n, p in TP + ([] if tier == "quick" else TP9[7:]):
        for c in ALL:
            for i, x in enumerate(setting_list(c, n, p)):
                if "mincomp" in x: continue
                for w in ("0", "rest"): wide.append(f"n={n} ppn={p} {spec(c, n, 0)} where={w} {x} {H2} {LIGHT}")
            oth = "env1:EXT_MPI_NUM_PORTS=%s env1:EXT_MPI_ALTERNATING=0 env1:EXT_MPI_NOT_RECURSIVE=1 env1:EXT_MPI_COPYIN=0;1_1 env1:EXT_MPI_NUM_TASKS_PER_SOCKET=1 env1:EXT_MPI_DEBUG=1 env1:EXT_MPI_VERBOSE=1 env1:EXT_MPI_NUM_SOCKETS_PER_NODE=2" % ("2(1) 2(1)" if False else "%d(1)" % n)
            wide.append(f"n={n} ppn={p} {spec(c, n, 0)} {oth} {H2} {LIGHT}")
            wide.append(f"n={n} ppn={p} {spec(c, n, 0)} where=0 env:EXT_MPI_DEBUG=0 {H1} {LIGHT}")
            wide.append(f"n={n} ppn={p} {spec(c, n, 0)} where=rest env:EXT_MPI_DEBUG=0 {H1} {LIGHT}")
    return [("settings of one rank", wide)]

def rankenv_pairs(tier):
    out = []
    for n, p in TPS:
        for c in ALL:
            base = f"n={n} ppn={p} ops=3 {spec(c, n, 0)}"
            for x in setting_list(c, n, p):
                if "mincomp" in x: continue
                out.append((f"{base} {x} where=0 {PH}", 0, f"{base} {x} {PH}", 0, True, "settings of the first rank hold for all ranks"))
                out.append((f"{base} {x} where=rest {PH}", 0, f"{base} {PH}", 0, True, "settings of other ranks are ignored"))
    return out

def bits(tier):
    q = tier == "quick"; deep = []
    for n, p in (TP6 if q else TP9):
        for c in RED:
            for k in ((0, 2) if q else (0, 1, 2, 3)):
                for t in ("double", "float"):
                    for x in [""] + (["copyin=0;%d alt=0 " % p, "wt=1 "] if p > 1 else []) + ["ports=%s copyin=0;%d " % (ps, p) for ps in ports(c, n // p)[:2 if q else None]]:
                        if q and n > 4 and (t == "float" or x.startswith("ports")): continue
                        deep.append(f"n={n} ppn={p} {spec(c, n, k)} type={t} data=nonassoc samedata=1 golden=1 {x}{H2}" + ("" if n <= 4 else " " + LIGHT))
    return [("bits", deep)]
