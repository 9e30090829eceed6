"""Differential checks: two configurations (or two operations of one) must show the same, or different,
communication patterns.  A pattern is the canonical execution's sequence of messages (peer, bytes) of every rank
during the operation plus the sizes of the shared segments it creates."""
import json, os, sys, time
import runner
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def pat(r, op):
    if r is None or r.get("error"): return None
    return dict(x.split("=") for x in r.get("pats", "").split(",") if x).get("op%d" % op)

def bad(a, b, eq):
    if a is None or b is None: return False
    return (a != b) if eq else (a == b)

def replay(d, rec):
    r = runner.run(d, [rec["cfg"], rec["cfg2"]], workers=2)
    a, b = pat(r[0], rec["op"]), pat(r[1], rec["op2"])
    print("patterns", a, b, "expected", "equal" if rec["eq"] else "different")
    return 1 if bad(a, b, rec["eq"]) else 0

def checker(prop, gen):
    """gen(tier) -> list of (cfg, op, cfg2, op2, equal?, what it means)"""
    def run(tier, d, known):
        pairs = gen(tier)
        cfgs, seen = [], {}
        for a, _, b, _, _, _ in pairs:
            for c in (a, b):
                if c not in seen: seen[c] = len(cfgs); cfgs.append(c)
        res = runner.run(d, cfgs, workers=8, deadline=time.time() + (400 if tier == "quick" else 3600))
        n = 0; lines = []; answered = 0
        for a, oa, b, ob, eq, what in pairs:
            pa, pb = pat(res[seen[a]], oa), pat(res[seen[b]], ob)
            if pa is None or pb is None: continue
            answered += 1
            if not bad(pa, pb, eq): continue
            rec = {"property": prop, "cfg": a, "op": oa, "cfg2": b, "op2": ob, "eq": eq, "what": what}
            r = runner.run(d, [a, b], workers=2)          # again in fresh processes
            if not bad(pat(r[0], oa), pat(r[1], ob), eq): continue
            n += 1
            if n > 4: continue
            os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
            path = os.path.join(HERE, "replay", "%s-pair%d.json" % (prop, n))
            rec["how"] = "python3 check.py --replay " + path
            json.dump(rec, open(path, "w"), indent=1)
            print("   PATTERN", what, "|", a, "op%d" % oa, "|", b, "op%d" % ob)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        return ({"states": sum(r.get("syncs", 0) for r in res if r), "transitions": sum(r.get("events", 0) for r in res if r), "traces": sum(r.get("execs", 0) for r in res if r),
                 "pattern_pairs": len(pairs), "pattern_pairs_compared": answered, "samples": [p[0] for p in pairs[:: max(1, len(pairs) // 3)]][:3]}, lines, [])
    return run
