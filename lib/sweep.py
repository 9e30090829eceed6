#!/usr/bin/env python3
"""Ad-hoc: sweep configs from stdin, print violations grouped."""
import sys, os, time, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
d = runner.build()
cfgs = [l.strip() for l in sys.stdin if l.strip()]
t=time.time()
res = runner.run(d, cfgs)
sym = runner.Symbolizer(d)
groups = collections.OrderedDict()
allp = [v["pc"] for r in res if r for v in r["viol"]]
m = sym.many(allp)
slow=[]
for r in res:
    if r is None: continue
    if r.get("error"): groups.setdefault(("ERROR",r["error"],"" ,""),[]).append((r["cfg"],"",""))
    for v in r["viol"]:
        fn, loc = m.get(v["pc"], ("",""))
        groups.setdefault((v["kind"], fn, loc), []).append((r["cfg"], v["variant"], v["msg"]))
    slow.append((r.get("ms",0), r.get("rssmb",0), r["cfg"]))
for k, l in groups.items():
    print("##", *k, "  configs:", len(set(x[0] for x in l)))
    seen=set()
    for c, va, ms in l[: int(os.environ.get("SHOW","3"))]:
        print("     ", c, "|", va, "|", ms)
slow.sort(reverse=True)
bad=len([r for r in res if r and (r["viol"] or r.get("error"))])
print("configs", len(res), "bad", bad, "execs", sum(r.get("execs",0) for r in res if r), "choices", sum(r.get("choices",0) for r in res if r),"wall %.1f"%(time.time()-t))
for s in slow[:4]: print("slow", s)
if os.environ.get("BADONLY"):
    for r in res:
        if r and r["viol"]: print("BAD", r["cfg"], sorted(set(v["kind"] for v in r["viol"])))
