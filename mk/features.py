"""Feature configurations: every combination type-checks, and features only ever add to the interface."""
import itertools
import json
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED
from .prog import Prog

RULE = "the library type-checks with this combination of its features enabled and no other"
ADD = "everything public in the smaller configuration is public, with the same signature, in the larger one"


def features():
    """features and optional dependencies of the crate, without `default`"""
    r = subprocess.run(["cargo", "metadata", "--offline", "--no-deps", "--format-version", "1"], cwd=build.REPO, env=build.cleanenv(), capture_output=True, text=True, check=True)
    for p in json.loads(r.stdout)["packages"]:
        if p["name"] == "minikalman":
            return sorted(f for f in p["features"] if f != "default")
    return []


HEAVY = ["nalgebra", "std", "libm"]


def check_combos(tier):
    fs = features()
    if len(fs) > 9:
        fs = fs[:9]
    heavy = [f for f in HEAVY if f in fs]
    light = [f for f in fs if f not in heavy]
    sub = lambda xs: [[x for x, b in zip(xs, bs) if b] for bs in itertools.product([0, 1], repeat=len(xs))]
    groups = sub(heavy)
    # the expensive group (nalgebra) first, one target directory per group of dependency features
    groups.sort(key=lambda g: -len(g))

    def work(g):
        env = build.cleanenv()
        env.update(CARGO_TARGET_DIR=os.path.join(build.BUILD, "combos", "_".join(g) or "none"), CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0")
        out = []
        for l in sub(light):
            c = ",".join(sorted(g + l))
            r = subprocess.run(["cargo", "check", "-p", "minikalman", "--lib", "--offline", "--no-default-features", "--features", c], cwd=build.REPO, env=env, capture_output=True, text=True)
            out.append((c, r.returncode, r.stderr))
        return out
    with ThreadPoolExecutor(8) as ex:
        res = sum(ex.map(work, groups), [])
    if not os.environ.get("MK_KEEP"):
        shutil.rmtree(os.path.join(build.BUILD, "combos"), ignore_errors=True)
    out = []
    for c, rc, err in sorted(res):
        if rc == 0:
            st, d, wh = HOLDS, "type-checks", "minikalman"
        else:
            m = re.search(r"^error[^\n]*\n\s*--> ([^\n]*)", err, re.M)
            e = re.search(r"^error[^\n]*", err, re.M)
            st = VIOLATED if m and "crates/minikalman" in m.group(1) else UNDECIDED
            d = e.group(0)[:200] if e else err[-200:]
            wh = m.group(1) if m else "minikalman"
        g = Goal("builds with [%s]" % c, st, wh, d, RULE)
        out.append(g)
    return out


PAIRS = [("core", "libm"), ("libm", "both"), ("micromath", "both"), ("both", "all"), ("std", "fixed"), ("fixed", "all"), ("nalgebra", "all"), ("full", "all"), ("no_assert", "all")]
PAIRS_Q = [("core", "libm"), ("libm", "full"), ("fixed", "full"), ("no_assert", "full")]


def iface(p):
    """public functions and trait implementations: {key: signature}"""
    out = {}
    for b in p.d["bodies"]:
        if b["kind"] in ("Fn", "AssocFn") and b.get("vis") == "pub" and b.get("body"):
            L = b["body"]["locals"]
            out["fn " + b["path"]] = json.dumps([sig(x) for x in L[:b["body"]["argc"] + 1]], sort_keys=True), bounds(b)
    for i in p.d["impls"]:
        if "trait" in i and not i.get("negative"):
            out["impl %s%s for %s" % (i["trait"], json.dumps(sig(i.get("targs", [])), sort_keys=True), json.dumps(sig(i["self"]), sort_keys=True))] = "", bounds(i)
    for t in p.d["traits"]:
        out["trait " + t["path"]] = "", bounds(t)
        for it in t["items"]:
            out["item %s::%s" % (t["path"], it["name"])] = "required" if not it["default"] else "provided", frozenset()
    for a in p.d["adts"]:
        out["type " + a["path"]] = json.dumps([[sig(f["ty"]) for f in v["fields"] if f.get("vis") == "pub"] for v in a["variants"]], sort_keys=True), frozenset()
    return out


def bounds(x):
    """trait bounds in force, as text"""
    return frozenset(json.dumps(sig(p), sort_keys=True) for p in x.get("preds", []))


def sig(t):
    """a type without identifiers that differ between compilations"""
    if isinstance(t, dict):
        return {k: sig(v) for k, v in t.items() if k not in ("sp", "span", "idx", "region", "id")}
    if isinstance(t, list):
        return [sig(x) for x in t]
    return t


def bound(x):
    d = json.loads(x)
    return "%s: %s" % ((d["args"] or [{}])[0].get("name", "_"), d["trait"].rsplit("::", 1)[-1])


def check_additive(tier):
    out = []
    ifs = {}
    for a, b in PAIRS if tier == "thorough" else PAIRS_Q:
        for c in (a, b):
            if c not in ifs:
                try:
                    ifs[c] = iface(Prog(build.dump(c)))
                except build.BuildError:
                    ifs[c] = None
        if ifs[a] is None or ifs[b] is None:
            out.append(Goal("%s is contained in %s" % (a, b), UNDECIDED, "minikalman", "a configuration does not build (reported separately)", ADD))
            continue
        bad = 0
        for k, s in sorted(ifs[a].items()):
            if k not in ifs[b]:
                bad += 1
                out.append(Goal("%s [%s -> %s]" % (k, a, b), VIOLATED, k, "present with features [%s], gone with [%s]" % (build.CONFIGS[a][0], build.CONFIGS[b][0]), ADD))
                continue
            (ts, tb), (us, ub) = s, ifs[b][k]
            d = None
            if ts != us and not k.startswith("item "):
                d = "signature differs"
            elif k.startswith("item ") and ts != us:
                d = "%s in the one, %s in the other, configuration" % (ts, us)
            elif ub - tb or (tb != ub and k.startswith("trait ")):
                d = "trait bounds differ (%s)" % "; ".join(bound(x) for x in sorted(ub ^ tb))[:200]
            if d:
                bad += 1
                out.append(Goal("%s [%s -> %s]" % (k, a, b), VIOLATED, k, "%s between [%s] and [%s]" % (d, build.CONFIGS[a][0], build.CONFIGS[b][0]), ADD))
        for k, (us, ub) in sorted(ifs[b].items()):
            if k not in ifs[a] and k.startswith("item ") and us == "required" and "trait " + k[5:].rsplit("::", 1)[0] in ifs[a]:
                bad += 1
                out.append(Goal("%s [%s -> %s]" % (k, a, b), VIOLATED, k, "required of implementors with [%s] only" % build.CONFIGS[b][0], ADD))
        if not bad:
            out.append(Goal("%s is contained in %s" % (a, b), HOLDS, "minikalman", "%d public items, impls and trait items, all present with [%s]" % (len(ifs[a]), build.CONFIGS[b][0]), ADD))
    return out
