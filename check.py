#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's working tree.
check.py --replay <file>: re-executes a recorded violation."""
import json, os, sys, time, collections
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import runner, props

KNOWN = os.path.join(HERE, "known_findings.txt")
LIMIT = {"quick": 600.0, "thorough": 6 * 3600.0}

def load_known(prop):
    """finding: property=<id> | kinds=<K1,K2|*> | cfg=<configuration> | what=<text>"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if not l.startswith("finding:"): continue
            f = dict(p.strip().split("=", 1) for p in l[len("finding:"):].split("|"))
            if f["property"] == prop:
                out.append((f["cfg"], f["kinds"].split(","), f["what"].strip()))
    return out

def key(cfg):
    """configuration without exploration options"""
    return " ".join(w for w in cfg.split() if not w.startswith(("opt=", "variant", "h=")))

def relevant(v, kinds, notkinds):
    k = v["kind"]
    if k in ("BADCONFIG",): return False
    if kinds is not None: return k in kinds
    return k not in notkinds

def confirm(d, cfg, kinds_ok, tries=3):
    """re-executes a configuration in fresh explorer processes"""
    for _ in range(tries):
        r = runner.run(d, [cfg], workers=1)[0]
        hit = [v for v in r["viol"] if kinds_ok(v)]
        if hit: return hit[0], r
    return None, None

def main():
    if sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        d = runner.build()
        if "cfg2" in rec:
            import pairs
            return pairs.replay(d, rec)
        r = runner.run(d, [rec["cfg"]], workers=1)[0]
        sym = runner.Symbolizer(d).many([v["pc"] for v in r["viol"]])
        for v in r["viol"]: print(v["kind"], "rank", v["rank"], *sym.get(v["pc"], ("", "")), "|", v["variant"], "|", v["msg"])
        print("violations:", len(r["viol"]))
        return 1 if r["viol"] else 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    P = props.PROPS[prop]
    d = runner.build()
    deadline = t0 + LIMIT[tier]
    known = load_known(prop)
    kinds, notkinds = P.get("kinds"), set(P.get("notkinds", props.RESOURCE))
    fams = P["families"](tier)           # list of (name, [configs])
    cfgs, fam_of = [], {}
    for name, l in fams:
        for c in l:
            if c not in fam_of: fam_of[c] = name; cfgs.append(c)
    for c, _, _ in known:
        if c not in fam_of: fam_of[c] = "known"; cfgs.append(c)
    stop = {"n": 0}
    bad = []
    knowncfg = {key(c): (ks, w) for c, ks, w in known}
    def isknown(cfg, v):
        k = knowncfg.get(key(cfg))
        return k is not None and ("*" in k[0] or v["kind"] in k[0])
    def rel(cfg):
        return lambda v: relevant(v, kinds, notkinds) and not isknown(cfg, v)
    hits = [0]
    def each(i, r):
        if any(rel(r["cfg"])(v) for v in r["viol"]):
            hits[0] += 1
            if hits[0] >= 24: stop_at[0] = 0  # enough material: stop exploring
    stop_at = [deadline]
    class DL:                                   # deadline that a violation can pull in
        def __lt__(self, o): return stop_at[0] < o
        def __gt__(self, o): return stop_at[0] > o
        def __bool__(self): return True
    res = runner.run(d, cfgs, workers=8, deadline=DL(), each=each)
    # configurations that gave no answer are run once more on their own
    noans = [i for i, r in enumerate(res) if r and r.get("error")]
    dead = []
    for i in noans[:16]:
        r = runner.run(d, [cfgs[i]], workers=1)[0]
        if r.get("error"): dead.append((cfgs[i], r["error"]))
        else: res[i] = r
    done = [r for r in res if r is not None]
    skipped = sum(1 for r in res if r is None)
    viol, knownhit = [], collections.OrderedDict()
    for r in done:
        for v in r["viol"]:
            if not relevant(v, kinds, notkinds): continue
            if isknown(r["cfg"], v): knownhit.setdefault(key(r["cfg"]), v)
            else: viol.append((r["cfg"], v))
    # confirm violations in fresh processes before reporting anything
    reported, unconfirmed, seen = [], [], collections.Counter()
    viol.sort(key=lambda x: len(x[0]))
    for cfg, v in viol:
        g = (v["kind"],)
        if seen[g] >= 2 or len(reported) >= 6 or len(unconfirmed) >= 12: continue
        hit = None
        vv = v.get("variant") or ""
        if vv and vv != "init":
            one = cfg + " variant=" + vv.replace(" ", "_")
            hit, _ = confirm(d, one, rel(cfg), 1)
            rc = one
        if not hit:
            hit, _ = confirm(d, cfg, rel(cfg)); rc = cfg
        if hit: seen[g] += 1; reported.append((rc, hit))
        else: unconfirmed.append((cfg, v))
    for cfg, err in dead[:2]:
        reported.append((cfg, {"kind": "NOANSWER", "rank": -1, "pc": "", "variant": "", "msg": err}))
    sym = runner.Symbolizer(d).many([v["pc"] for _, v in reported])
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    lines = []
    for i, (cfg, v) in enumerate(reported):
        path = os.path.join(HERE, "replay", "%s-%d.json" % (prop, i))
        json.dump({"property": prop, "cfg": cfg, "violation": v, "where": sym.get(v["pc"], ("", "")),
                   "how": "python3 check.py --replay " + path}, open(path, "w"), indent=1)
        print("  ", v["kind"], "rank", v["rank"], *sym.get(v["pc"], ("", "")), "|", cfg if len(cfg) < 400 else cfg[:400] + "...", "|", v["msg"][:300])
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    for k, v in knownhit.items():
        print("KNOWN-FINDING: property=%s %s [%s: %s]" % (prop, knowncfg[k][1], k, v["kind"]))
    fam = collections.OrderedDict()
    for r in done:
        f = fam.setdefault(fam_of.get(r["cfg"], "?"), {"configurations": 0, "executions": 0, "scheduling_points": 0})
        f["configurations"] += 1; f["executions"] += r.get("execs", 0); f["scheduling_points"] += r.get("syncs", 0)
    # the explorer is deterministic: some configurations of every family are explored again and must give the same counts
    byfam, again = collections.OrderedDict(), []
    for r in sorted(done, key=lambda r: r.get("ms", 0)):
        if not r.get("trunc") and not r.get("error") and not r["viol"] and r.get("ms", 0) < 5000: byfam.setdefault(fam_of.get(r["cfg"], "?"), []).append(r)
    for l in byfam.values(): again += [l[i] for i in sorted({len(l) // 4, len(l) // 2, 3 * len(l) // 4})]
    diverged = [a["cfg"] for a, b in zip(again, runner.run(d, [r["cfg"] for r in again], workers=8)) if any(a.get(k) != b.get(k) for k in ("execs", "choices", "syncs", "events", "transfers"))]
    step = max(1, len(done) // 6)
    extra = {}
    if "extra" in P:
        extra, xlines, xknown = P["extra"](tier, d, known)
        lines += xlines
        for l in xknown: print(l)
    cov = {"states": sum(r.get("syncs", 0) for r in done) + extra.get("states", 0), "transitions": sum(r.get("events", 0) for r in done) + extra.get("transitions", 0),
           "traces_validated_against_impl": sum(r.get("execs", 0) for r in done) + extra.get("traces", 0),
           "configurations": len(done), "configurations_skipped_by_time_limit": skipped,
           "choice_points_enumerated": sum(r.get("choices", 0) for r in done), "message_transfers": sum(r.get("transfers", 0) for r in done),
           "delayed_rank_schedules": sum(r.get("delays", 0) for r in done), "race_reversals": sum(r.get("races", 0) for r in done),
           "replayed_configurations": len(again), "replay_divergences": diverged, "unconfirmed": len(unconfirmed), "no_answer": len(dead), "known_findings_reproduced": len(knownhit), "families": fam,
           "samples": [r["cfg"] for r in done[::step]][:8] + extra.get("samples", []),
           "rule": "states = visible synchronisation points executed (message operations, shared flag reads and writes, barriers), transitions = "
                   "events of the controlled machine; every execution runs the compiled library itself, so each trace is an implementation trace"}
    for k, v in extra.items():
        if k not in ("states", "transitions", "traces", "samples"): cov[k] = v
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(lines), "assumptions": props.ASSUME + P.get("assume", [])}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d configurations, %d executions, %d states, %d transitions, %d skipped, %d unconfirmed, %.1f s" % (
        prop, tier, len(done), cov["traces_validated_against_impl"], cov["states"], cov["transitions"], skipped, len(unconfirmed), time.time() - t0))
    for cfg, v in unconfirmed[:3]: print("   unconfirmed:", v["kind"], cfg[:400], v["msg"][:200])
    for l in lines: print(l)
    return 1 if lines else 0

if __name__ == "__main__":
    sys.exit(main())
