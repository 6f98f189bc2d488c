"""Runner: python3 -m mk.check <property> [quick|thorough]"""
import json
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from mk import build                                     # noqa: E402
from mk.goals import HOLDS, VIOLATED, UNDECIDED          # noqa: E402


SOFT, HARD = int(os.environ.get("MK_SOFT", 420)), int(os.environ.get("MK_HARD", 640))              # seconds after the start: goals give up one by one; the rest of an analysis gives up


def limits(t0, tier):
    if tier != "quick":
        return
    from mk import fm

    def ring(*a):
        raise fm.Undecided("out of time")
    fm.DEADLINE = t0 + SOFT
    signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, max(1, t0 + HARD - time.time()), 5)


def analyse(job):
    """one property on one configuration (runs in a worker process)"""
    pid, cfg, path, tier, t0 = job
    from mk import props
    from mk.prog import Prog
    sys.setrecursionlimit(20000)
    t = time.time()
    limits(t0, tier)
    prog = Prog(path)
    prog.cfgname = cfg
    out, stats = [], {"bodies": len(prog.d["bodies"])}
    for label, f, own in props.PROPS[pid]["analyses"]:
        try:
            gs = f(prog)
        except Exception as e:                            # an engine error decides nothing
            from mk.goals import Goal
            gs = [Goal("%s: engine" % label, UNDECIDED, cfg, "%s: %s" % (type(e).__name__, str(e)[:300]), "engine")]
            if os.environ.get("MK_DEBUG"):
                traceback.print_exc()
        stats[label] = len(gs)
        for g in gs:
            g.config = cfg
            g.own = own
            g.label = label
        out += gs
    signal.setitimer(signal.ITIMER_REAL, 0)
    stats["seconds"] = round(time.time() - t, 2)
    return out, stats


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    from mk import props
    pr = props.PROPS[pid]
    cfgs = pr.get("configs") or props.QUICK
    if tier == "thorough" and "configs" not in pr:
        cfgs = list(dict.fromkeys(list(cfgs) + list(build.CONFIGS)))
    if pr["analyses"]:
        from mk import cfgs as C
        cfgs = C.more(cfgs, **pr.get("extra", {}))
    goals, stats, failed = [], {}, {}
    if pr["analyses"]:
        ds = build.dumps(cfgs)
        jobs = []
        for c, p in ds.items():
            if isinstance(p, Exception):
                failed[c] = str(p)
            else:
                jobs.append((pid, c, p, tier, t0))
        if not jobs:
            print("ERROR: no configuration of the crate could be analysed")
            print("\n".join(failed.values())[-3000:])
            return 2
        with ProcessPoolExecutor(min(8, len(jobs))) as ex:
            for j, (g, s) in zip(jobs, ex.map(analyse, jobs)):
                goals += g
                stats[j[1]] = s
    for label, f in pr.get("whole", []):
        try:
            gs = f(tier)
        except Exception as e:                                # an engine error decides nothing
            from mk.goals import Goal
            gs = [Goal("%s: engine" % label, UNDECIDED, "-", "%s: %s" % (type(e).__name__, str(e)[:300]), "engine")]
            if os.environ.get("MK_DEBUG"):
                traceback.print_exc()
        stats[label] = len(gs)
        for g in gs:
            g.own, g.label = True, label
            g.config = g.config or "-"
        goals += gs
    # the number of own obligations per configuration must not fall below the counted floor
    from mk.goals import Goal
    for c, s in stats.items():
        if isinstance(s, dict) and c in build.CONFIGS:
            n = sum(1 for g in goals if g.own and g.config == c)
            fl = pr.get("floor", 1)
            if isinstance(fl, dict):
                fl = fl.get(c, fl.get("*", 1))
            if n < fl and not any(g.status == UNDECIDED for g in goals if g.own and g.config == c):
                g = Goal("obligation count", VIOLATED, c, "%d obligations found, at least %d expected: an anchor of this property is gone" % (n, fl), "floor")
                g.config, g.own, g.label = c, True, "floor"
                goals.append(g)
    known = {}
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf))["findings"]:
            if e["property"] == pid:
                known[e["key"]] = e
    viol = [g for g in goals if g.status == VIOLATED]
    und = [g for g in goals if g.status == UNDECIDED]
    new = [g for g in viol if g.key not in known]
    listed = sorted({g.key for g in viol if g.key in known})
    ok = [g for g in goals if g.status == HOLDS]
    print("%s %s: %d obligations, %d hold, %d violated, %d undecided (%s)" % (pid, tier, len(goals), len(ok), len(viol), len(und), ", ".join("%s" % c for c in cfgs)))
    for c, e in failed.items():
        print("NOTE: configuration %s does not build: %s" % (c, e.strip().splitlines()[-1] if e.strip() else ""))
    seen = set()
    for g in und:
        if g.key not in seen:
            seen.add(g.key)
            print("UNDECIDED: %s\n    at %s [%s]\n    %s" % (g.key, g.where, g.config, g.detail))
    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    rdir = os.path.join(build.BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + ".json")
    if new:
        json.dump([dict(key=g.key, where=g.where, rule=g.rule, detail=g.detail, config=g.config) for g in new], open(rp, "w"), indent=1)
        seen = set()
        for g in new:
            if g.key not in seen:
                seen.add(g.key)
                print("  violated: %s\n    at   %s [%s]\n    rule %s\n    %s" % (g.key, g.where, g.config, g.rule, g.detail))
    ev = dict(property=pid, tier=tier, seed=seed, level=pr.get("level", "other"),
              coverage=dict(explanation=pr["explanation"] + " Configurations analysed: " + "; ".join("%s=[%s%s]" % (c, *(build.CONFIGS.get(c) or build.AUTO[c])) for c in cfgs if c in stats) + ".",
                            obligations=len(goals), discharged=len(ok), rule=pr["technique"],
                            samples=[dict(obligation=g.key, where=g.where, config=g.config, verdict=g.status, rule=g.rule, detail=g.detail[:300]) for g in sample(goals)],
                            checker_cmd="./check %s %s" % (pid, tier),
                            trusted_base=["rustc nightly MIR construction and trait resolution", "the interpreter and normal forms in /verif/mk", "summaries of core/alloc functions in mk/models.py"]),
              assumptions=pr.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    ev["coverage"]["undecided"] = len(und)
    ev["coverage"]["per_configuration"] = stats
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def sample(goals):
    """a spread of obligations, undecided and violated first"""
    bad = [g for g in goals if g.status != HOLDS][:20]
    own = [g for g in goals if g.own and g.status == HOLDS]
    seen, pick = set(), []
    for g in own:
        if g.key not in seen:
            seen.add(g.key)
            pick.append(g)
    return bad + pick[:60]


if __name__ == "__main__":
    sys.exit(main())
