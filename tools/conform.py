#!/usr/bin/env python3
"""Validates the explorer against the real thing: the messages (receiver, bytes) every rank sends and the shared segments it
creates during a persistent collective, in order, as seen by the explorer's canonical execution and as recorded by
interposition while the same compiled library runs under mpirun with Open MPI.  Not one of the registered checks: it
needs real processes and takes minutes; its last result is in DESIGN.md.   conform.py [max ranks]"""
import os, sys, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import runner
from families import irr, ports
from families2 import ALL
KEYS = {"sockets": "ext_mpi_num_sockets_per_node", "tps": "ext_mpi_num_tasks_per_socket", "ports": "ext_mpi_num_ports", "copyin": "ext_mpi_copyin", "alt": "ext_mpi_alternating"}
RED = ("allreduce", "reduce", "reduce_scatter", "reduce_scatter_block")
REPO = os.environ.get("VMC_REPO", "/repo")

def cases(n):
    """(collective, type, count, root, inplace, counts, communicator, settings)"""
    out = []
    for c in ALL:
        rooted = c in ("reduce", "bcast", "gather", "gatherv", "scatter", "scatterv"); v = c in ("allgatherv", "gatherv", "scatterv", "reduce_scatter")
        for k, cnt in enumerate((1, 7, 250)):
            for t in (1, 2, n):
                if n % t or (t == 2 and n == 2): continue
                base = {"tps": str(t)}
                if t > 1: base["copyin"] = "0;%d" % t
                for root in ((0, n - 1) if rooted else (0,)):
                    sets = [dict(base)]
                    if t > 1: sets.append(dict(base, alt="0"))
                    if t == 1: sets += [dict(base, ports=p) for p in ("%d(%d)" % (n, n - 1),)]
                    if t == 1 and n == 4: sets += [dict(base, ports="4(1_1)"), dict(base, ports="4(3)")] + ([] if c in ("allgather", "allgatherv", "gather", "gatherv", "scatter", "scatterv") else [dict(base, ports="4(-1_-1_1_1)"), dict(base, ports="4(-3_3)")])
                    for s in sets:
                        out.append((c, ("long", "int", "double")[k], cnt, root, 0, irr(n, k) if v else "-", "world", s))
                if c in ("allreduce", "reduce"): out.append((c, "float", cnt, 0, 1 if c == "allreduce" else 0, "-", "world", base))
                if t == 1 and n > 2: out += [(c, "long", cnt, 0, 0, irr(2, k) if v else "-", cm, base) for cm in ("rev", "evenodd", "halves")]
    return out

def main():
    d = runner.build()
    mx = int(sys.argv[1]) if len(sys.argv) > 1 else 8
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_pml="ob1", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
               OMPI_MCA_plm="isolated", OMPI_MCA_mpi_yield_when_idle="1", EXT_MPI_DEBUG="0")
    W = tempfile.mkdtemp()
    tot = same = msgs = 0
    try:
        subprocess.check_call(["mpicc", "-w", "-O1", "-I" + REPO + "/include/mpi", "-I" + REPO + "/include/core", "-I" + REPO + "/include", HERE + "/tools/conform.c",
                               REPO + "/lib/libext_mpi_collectives.a", "-o", W + "/conform", "-lrt", "-lm", "-ldl"])
        for n in range(2, mx + 1):
            cs = cases(n)
            with open(W + "/in", "w") as f:
                for c, ty, cnt, root, ip, v, cm, s in cs:
                    print(c, ty, cnt, root, ip, v, cm, 2, *["%s=%s" % (KEYS[k], x) for k, x in s.items()], file=f)
            p = subprocess.run(["timeout", "600", "mpirun", "-np", str(n), "--oversubscribe", W + "/conform", W + "/in", W + "/out"], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode: print("n=%d: mpirun rc=%d %s" % (n, p.returncode, p.stdout[-400:]))
            real = {}
            for r in range(n):
                for l in open(W + "/out.%d" % r):
                    w = l.split(); real[int(w[0]), r] = w[1:]
            cfgs = []
            for i, (c, ty, cnt, root, ip, v, cm, s) in enumerate(cs):
                x = "n=%d ppn=%d coll=%s type=%s count=%d root=%d%s%s comm=%s via=info %s h=i0.|.s0.w0.s0.w0.f0 opt=light,nodelay pats=1 patdump=%s" % (
                    n, n, c, ty, cnt, root, " inplace=1" if ip else "", "" if v == "-" else " counts=" + v, cm, " ".join("%s=%s" % k for k in s.items()), W + "/m%d" % i)
                cfgs.append(x)
            res = runner.run(d, cfgs)
            nd = 0
            for i, x in enumerate(cfgs):
                model = {r: [] for r in range(n)}
                if os.path.exists(W + "/m%d" % i):
                    for l in open(W + "/m%d" % i):
                        w = l.split(); model[int(w[0])] = w[2:]
                    os.unlink(W + "/m%d" % i)
                tot += 1; ok = True
                for r in range(n):
                    a, b = real.get((i, r)), model[r]; msgs += len(b)
                    if a != b:
                        ok = False
                        if nd < 5: print("DIFFERS rank %d | %s\n   real  %s\n   model %s" % (r, x.split(" h=")[0], " ".join(a or ["-"])[:300], " ".join(b)[:300]))
                        break
                same += ok; nd += not ok
                if any(v["kind"] not in ("LEAK",) for v in res[i]["viol"]): print("   explorer:", res[i]["viol"][0]["kind"], x.split(" h=")[0])
            print("n=%d: %d cases, %d differ" % (n, len(cs), nd), flush=True)
    finally:
        shutil.rmtree(W)
    print("%d cases, %d identical, %d events compared" % (tot, same, msgs))
    return 0 if same == tot else 1
sys.exit(main())
