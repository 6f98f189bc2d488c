"""Unsafe code: where it may appear, and that no unchecked access leaves its storage."""
from .poly import *
from .prog import last
from .interp import Undecided
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED, short
from . import kernels as K
from . import storage as St
from . import safety
from . import nalg

RULE = "no unsafe code without the feature `unsafe`; with it every unchecked access lies inside its storage for every storage length"
CONTIG = ("IsContiguous", "RawStorage")


def ops(mir):
    """unsafe operations of a body: [(what, line)]"""
    out = []
    ptrs = {i for i, t in enumerate(mir["locals"]) if t["k"] == "ptr"}
    def place(p, ln):
        if isinstance(p, dict) and "l" in p and p.get("p"):
            if p["p"][0] == "*" and p["l"] in ptrs:
                out.append(("dereference of a raw pointer", ln))

    def walk(x, ln):
        if isinstance(x, dict):
            if "l" in x and "p" in x:
                place(x, ln)
            for v in x.values():
                walk(v, ln)
        elif isinstance(x, list):
            for v in x:
                walk(v, ln)
    for b in mir["blocks"]:
        if b["cleanup"]:
            continue
        for pl, r, ln in b["s"]:
            walk(pl, ln)
            walk(r, ln)
        t = b["t"]
        walk({k: v for k, v in t.items() if k not in ("f", "fty")}, t.get("ln"))
        if t["k"] == "call":
            f = t["f"].get("const", {}) if isinstance(t["f"], dict) else {}
            if f.get("unsafe"):
                out.append(("call of unsafe %s" % f["fn"], t.get("ln")))
    return out


def owner(prog, b):
    """closures belong to the function that contains them"""
    p = b["path"]
    while "::{closure" in p:
        p = p[:p.rindex("::{closure")]
        if p in prog.bypath:
            return prog.bypath[p]
    return b


def callers(prog, target):
    """local functions calling a body"""
    out = []
    for b in prog.d["bodies"]:
        if not b.get("body") or b is target:
            continue
        for bl in b["body"]["blocks"]:
            t = bl["t"]
            if t["k"] == "call":
                f = t["f"].get("const", {}) if isinstance(t["f"], dict) else {}
                if target["sp"] in (f.get("sp"), f.get("rsp")):
                    o = owner(prog, b)
                    if o not in out:
                        out.append(o)
    return out


def check_unsafe(prog):
    out = []
    feats = set(prog.d["features"])
    allowed = "unsafe" in feats
    users = {}
    holders = {x["sp"] for x in prog.d["unsafe_blocks"]}
    for b in prog.d["bodies"]:
        if not b.get("body"):
            continue
        o = owner(prog, b)
        if o["sp"] in holders or b["sp"] in holders or o.get("unsafe"):
            users.setdefault(o["sp"], (o, []))[1].extend((w, "%s:%s" % (b["span"].rsplit(":", 1)[0], ln)) for w, ln in ops(b["body"]))
    blocks = prog.d["unsafe_blocks"]
    impls = [i for i in prog.d["impls"] if i.get("unsafe")]
    fns = [b for b in prog.d["bodies"] if b.get("unsafe") and "{closure" not in b["path"]]
    if not allowed:
        for x in blocks:
            out.append(Goal("unsafe block in %s" % x["owner"].replace("minikalman::", ""), VIOLATED, "%s (%s)" % (x["owner"], short(x["span"])), "unsafe code although the feature `unsafe` is off", RULE))
        for i in impls:
            out.append(Goal("unsafe impl %s" % last(i["trait"]), VIOLATED, "impl %s for %s (%s)" % (last(i["trait"]), i["self"].get("path"), short(i["span"])), "unsafe code although the feature `unsafe` is off", RULE))
        for b in fns:
            out.append(Goal("unsafe fn %s" % b["path"].replace("minikalman::", ""), VIOLATED, K.where_of(b), "unsafe code although the feature `unsafe` is off", RULE))
        n = sum(1 for b in prog.d["bodies"] if b.get("body"))
        out.append(Goal("no unsafe code without the feature", HOLDS if not out else VIOLATED, "minikalman", "%d bodies, %d impls searched" % (n, len(prog.d["impls"])), RULE))
    for i in impls:
        ky = "unsafe impl %s for %s" % (last(i["trait"]), last(i["self"].get("path", "?")))
        wh = "impl (%s)" % short(i["span"])
        if last(i["trait"]) in CONTIG:
            out.append(Goal(ky, HOLDS, wh, "contiguous row-major storage; its functions are decided below", RULE))
        elif last(i["trait"]) in ("RawStorageMut", "Storage", "Allocator"):
            out.append(Goal(ky, UNDECIDED, wh, "no rule for this unsafe trait", RULE))
        elif last(i["trait"]) in ("Send", "Sync"):
            loose = unbounded(prog, i)
            out.append(Goal(ky, VIOLATED if loose else UNDECIDED, wh, "asserted for every %s, also one that is neither Send nor Sync" % ", ".join(loose) if loose else "thread safety asserted by hand", RULE))
        else:
            out.append(Goal(ky, UNDECIDED, wh, "no rule for this unsafe trait", RULE))
    if allowed:
        for g in nalg.inside(prog):
            out.append(Goal(g.key, g.status, g.where, g.detail, RULE))
    done = set()
    for sp, (b, os_) in sorted(users.items()):
        out += entry(prog, b, os_, done, 0)
    out.append(Goal("unchecked accesses", HOLDS, "minikalman", "%d functions contain unsafe operations; %d bodies searched" % (len(users), len(prog.d["bodies"])), RULE))
    return out


def stored(t):
    """type parameters a field type really holds (not behind PhantomData)"""
    if isinstance(t, list):
        return set().union(*[stored(x) for x in t]) if t else set()
    if not isinstance(t, dict):
        return set()
    if t.get("k") == "param":
        return {t["name"]}
    if t.get("k") == "adt" and last(t["path"]) == "PhantomData":
        return set()
    return set().union(set(), *[stored(v) for v in t.values() if isinstance(v, (dict, list))])


def unbounded(prog, i):
    """type parameters a hand-written Send/Sync impl leaves unconstrained although values of them are stored"""
    a = prog.adts.get(i["self"].get("path"))
    if not a:
        return []
    held = set()
    for v in a["variants"]:
        for f in v["fields"]:
            held |= stored(f["ty"])
    bound = {p["args"][0].get("name") for p in i.get("preds", []) if last(p["trait"]) in ("Send", "Sync") and p["args"] or last(p["trait"]).startswith("MatrixDataType") and p["args"]}
    out = []
    tys = [x for x in i["self"]["args"]]
    for (k, nm), x in zip(a["gen"], tys):
        if x.get("k") == "param" and x["name"] not in bound and nm in held:
            out.append(x["name"])
    return out


def entry(prog, b, os_, done, depth, only=None):
    """decide the unchecked accesses reached from one function, for arbitrary storages"""
    ky = "unchecked access in %s" % b["path"].replace("minikalman::", "")
    wh = "%s; %s" % (K.where_of(b), "; ".join("%s at line %s" % (w, short(l)) for w, l in os_[:3]))
    st, detail, inner = attempt(prog, b, only)
    if st == HOLDS:
        return [Goal(ky, HOLDS, wh, detail, RULE)]
    im = prog.impls.get(b.get("impl")) or {}
    if last(im.get("trait", "")) in CONTIG and b["body"]["argc"] == 1:
        return [Goal(ky, st, wh, detail, RULE)]          # nalgebra's safe interface calls it on any object
    private = b.get("vis", "pub") != "pub" and not b.get("impl_trait")
    if (b.get("unsafe") or private) and depth < 4:
        # preconditions are the callers' business
        cs = callers(prog, b)
        out = []
        for c in cs:
            if c["sp"] in done:
                continue
            done.add(c["sp"])
            out += entry(prog, c, [("call of %s" % last(b["path"]), "")], done, depth + 1)
        if cs:
            return out
        if b.get("unsafe"):
            return [Goal(ky, UNDECIDED, wh, "preconditions of an unsafe function nobody calls here: " + detail, RULE)]
    return [Goal(ky, st, wh, detail, RULE)]


def attempt(prog, b, only):
    im = prog.impls.get(b.get("impl"))
    try:
        k = St.Fn(prog, b)
        k.I.pos = set()
        k.run()
    except Undecided as e:
        return UNDECIDED, str(e), None
    I = k.I
    nonneg = [ge0(sym(n)) for kk, n in b["gen"] if kk == "const"]
    nonneg += [ge0(a) for a, t in zip(k.args, k.tys) if isinstance(a, Poly) and t.get("name") == "usize"]
    obs = [o for o in I.obl if o["kind"] == "unchecked"]
    worst, detail = HOLDS, "%d unchecked accesses in bounds" % len(obs)
    for o in obs:
        try:
            s, d = safety.decide(I, o, nonneg, [])
        except Undecided as e:
            s, d = UNDECIDED, str(e)
        if s != HOLDS:
            if worst == HOLDS or s == VIOLATED:
                worst, detail = s, "%s: %s" % (short(o["span"]), d)
    hard = [n for n in I.notes if not n.startswith("uninterpreted")]
    if worst == HOLDS and hard:
        return UNDECIDED, hard[0], k
    if worst == HOLDS and not obs and not b.get("unsafe"):
        return UNDECIDED, "unsafe operation without a bounds rule", k
    return worst, detail, k
