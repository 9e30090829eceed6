"""Feeds configurations to the explorer (mc/vmc), one process per core."""
import json, os, subprocess, threading, time, queue, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def build():
    p = subprocess.run([sys.executable, os.path.join(HERE, "mc", "build.py")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        sys.stderr.write(p.stderr)
        raise SystemExit("explorer build failed (the tree under test does not compile)")
    return p.stdout.strip().splitlines()[-1]

class Symbolizer:
    def __init__(self, d):
        self.lib = os.path.join(d, "librank.so")
        self.cache = {}
        self.lock = threading.Lock()
    def many(self, pcs):
        with self.lock:
            need = [p for p in set(pcs) if p not in self.cache and p.startswith("+0x")]
            if need:
                out = subprocess.run(["llvm-symbolizer-18", "--obj=" + self.lib, "--no-inlines", "--basenames"] + [p[1:] for p in need],
                                     stdout=subprocess.PIPE, text=True).stdout
                blocks = [b for b in out.split("\n\n") if b.strip()]
                for p, b in zip(need, blocks):
                    ls = b.strip().splitlines()
                    fn = ls[0] if ls else "?"
                    loc = ls[1] if len(ls) > 1 else "?"
                    self.cache[p] = (fn, ":".join(loc.split(":")[:2]))
            return {p: self.cache.get(p, ("", "")) for p in pcs}

def run(d, configs, workers=8, deadline=None, each=None, env=None, per_cfg=600):
    """Runs every configuration; returns the list of result dicts in input order.
    Configurations not started before `deadline` are returned as None."""
    q = queue.Queue()
    for i, c in enumerate(configs):
        q.put((i, c))
    res = [None] * len(configs)
    lock = threading.Lock()
    e = dict(os.environ)
    if env:
        e.update(env)
    def work():
        p = None
        while True:
            try:
                i, c = q.get_nowait()
            except queue.Empty:
                break
            if deadline and time.time() > deadline:
                continue
            if p is None or p.poll() is not None:
                p = subprocess.Popen([os.path.join(d, "vmc")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, env=e, start_new_session=True)
            pp = p
            tm = threading.Timer(per_cfg, lambda: kill(pp))
            tm.start()
            try:
                p.stdin.write((c + "\n").encode())
                p.stdin.flush()
                line = p.stdout.readline()
            except BrokenPipeError:
                line = b""
            tm.cancel()
            try:
                r = json.loads(line)
            except Exception:
                r = {"cfg": c, "viol": [], "error": "no answer (rc=%s) %r" % (p.poll(), line[:200])}
                kill(p); p = None
            res[i] = r
            if each:
                with lock:
                    each(i, r)
        if p is not None:
            try:
                p.stdin.close()
                p.wait(5)
            except Exception:
                kill(p)
    def kill(p):
        try:
            os.killpg(p.pid, 9)
        except Exception:
            pass
    ts = [threading.Thread(target=work) for _ in range(min(workers, max(1, len(configs))))]
    for t in ts: t.start()
    for t in ts: t.join()
    return res
