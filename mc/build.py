#!/usr/bin/env python3
"""Builds the library under test (from /repo's working tree) and the vmc
explorer into /verif/build/<hash>.  Prints the build directory.

The library is compiled with clang's ThreadSanitizer *instrumentation pass*
only (no tsan runtime): every memory access becomes a call into vmc, which
implements those hooks itself.  libc/SysV entry points are redirected to vm_*
stand-ins with objcopy, so nothing the library does reaches the real system."""
import hashlib, os, sys, subprocess, glob, fcntl, shutil, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MPIINC = ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
NRANKS = 16
REDEF = """malloc free calloc realloc memcpy memmove memset strdup strcpy strcat strncpy sprintf snprintf printf puts
putchar fprintf vprintf exit abort getenv shmget shmat shmdt shmctl usleep sleep sched_yield rand time clock perror fflush
gettimeofday clock_gettime mmap munmap shm_open shm_unlink ftruncate close open unlink fopen fclose""".split()
VM_ONLY = None

def sources():
    s = []
    for d in ("core", "mpi", "fortran", "noopt"):
        s += sorted(glob.glob(f"{REPO}/src/{d}/*.c"))
    return s

def tree_hash():
    h = hashlib.sha256(os.environ.get("VMC_COV", "").encode())
    files = sources() + sorted(glob.glob(f"{REPO}/include/**/*.h", recursive=True))
    files += sorted(glob.glob(f"{REPO}/latency_bandwidth/*.txt")) + [f"{REPO}/minclude.sh"]
    files += sorted(glob.glob(f"{VERIF}/mc/*.cpp") + glob.glob(f"{VERIF}/mc/*.h") + glob.glob(f"{VERIF}/mc/*.c")) + [os.path.abspath(__file__)]
    for f in files:
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh: h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:16]

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("BUILD FAILED: " + " ".join(cmd) + "\n" + r.stdout[-4000:] + "\n")
        raise SystemExit(3)
    return r.stdout

def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hsh = tree_hash()
        out = os.path.join(BUILD, hsh)
        if os.path.exists(os.path.join(out, "ok")):
            os.utime(out)
            return out
        for d in os.listdir(BUILD):
            p = os.path.join(BUILD, d)
            if os.path.isdir(p) and (d.endswith(".tmp") or time.time() - os.path.getmtime(p) > 86400):
                shutil.rmtree(p, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        # the measured latency table, as a compact loop (the repository's generated form is one statement per number)
        # and without the rows above 200 kB per message, which the explored sizes never reach
        rows = [l.split() for l in open(f"{REPO}/latency_bandwidth/ext_mpi_bm.txt") if l.strip()]
        rows = [r for r in rows if float(r[3]) <= 200000]
        with open(f"{tmp}/latency_bandwidth.tmp", "w") as f:
            f.write("static const double vm_t[][5] = {" + ",\n".join("{" + ",".join(r[:5]) + "}" for r in rows) + "};\nint vm_i; FileData *file_input_raw_;\n")
            f.write(f"*file_input_max_raw={len(rows)}; *file_input_raw = file_input_raw_ = (FileData *) malloc({len(rows)}*sizeof(FileData));\n")
            f.write(f"for (vm_i = 0; vm_i < {len(rows)}; vm_i++) {{ file_input_raw_[vm_i].nnodes=vm_t[vm_i][0]; file_input_raw_[vm_i].nports=vm_t[vm_i][1]; file_input_raw_[vm_i].parallel=vm_t[vm_i][2]; file_input_raw_[vm_i].msize=vm_t[vm_i][3]; file_input_raw_[vm_i].deltaT=vm_t[vm_i][4]; }}\n")
        with open(f"{tmp}/redef.txt", "w") as f:
            for s in REDEF: f.write(f"{s} vm_{s}\n")
        inc = [f"-I{tmp}", f"-I{REPO}", f"-I{REPO}/include/core", f"-I{REPO}/include/mpi"] + [f"-I{x}" for x in MPIINC]
        jobs, objs = [], []
        for s in sources():
            o = f"{tmp}/" + s[len(REPO) + 5:].replace("/", "_")[:-2] + ".o"
            fl = ["-O1", "-g1", "-fPIC", "-w", "-DDEBUG", "-DM_MAP", "-fno-builtin-printf", "-fno-builtin-memcpy" if False else "-w"]
            if "/noopt/" in s: fl[0] = "-O2"
            else: fl += ["-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=1", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
            if os.environ.get("VMC_COV"): fl.append("-fsanitize-coverage=trace-pc-guard,pc-table")
            jobs.append(["clang", *fl, *inc, "-c", s, "-o", o]); objs.append(o)
        vm = []
        for s in sorted(glob.glob(f"{VERIF}/mc/*.cpp")):
            o = f"{tmp}/" + os.path.basename(s)[:-4] + ".vo"
            jobs.insert(0, ["g++", "-std=c++17", "-O2", "-g1", "-fno-strict-aliasing", "-Wall", "-Wno-unused-result", "-fPIC", f"-I{VERIF}/mc", *[f"-I{x}" for x in MPIINC],
                         f"-DNRANKS_MAX={NRANKS}", "-c", s, "-o", o]); vm.append(o)
        with ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
        run(["ld", "-r", "-o", f"{tmp}/all.o"] + objs)
        run(["objcopy", f"--redefine-syms={tmp}/redef.txt", f"{tmp}/all.o", f"{tmp}/all2.o"])
        run(["clang", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,lazy", "-o", f"{tmp}/librank.so", f"{tmp}/all2.o", "-lm"])
        run(["g++", "-rdynamic", "-o", f"{tmp}/vmc", *vm, "-ldl", "-lm"])
        for o in objs + vm + [f"{tmp}/all.o", f"{tmp}/all2.o"]: os.unlink(o)
        for r in range(NRANKS): shutil.copy(f"{tmp}/librank.so", f"{tmp}/rank{r}.so")
        open(f"{tmp}/ok", "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        # keep the most recent few builds
        ds = sorted((d for d in glob.glob(BUILD + "/*") if os.path.isdir(d)), key=os.path.getmtime)
        for d in ds[:-3]: shutil.rmtree(d, ignore_errors=True)
        return out

if __name__ == "__main__":
    print(build())
