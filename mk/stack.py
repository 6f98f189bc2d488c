"""Constant stack: no recursion and no value sized by dimensions or storage in the frames of steps, kernels and accessors."""
from .prog import last
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED, short
from .storage import base
from .noalloc import Graph, roots

RULE = "no function reachable from a filter step, matrix operation or accessor recurses or keeps, by value, an array of symbolic length or anything that contains storage"
POINTERS = ("core::slice::", "core::ptr::", "core::marker::PhantomData", "core::array::TryFromSliceError", "alloc::boxed::Box", "alloc::vec::Vec")
ELEM = {"MatrixDataType", "MatrixDataTypeBase"}


def strip(t):
    while isinstance(t, dict) and t.get("k") in ("ref", "ptr"):
        t = t["ty"]
    return t


class Sizes:
    def __init__(self, prog):
        self.p = prog

    def big(self, t, b, env=None, depth=0):
        """why a value of this type grows with dimensions or storage, or None"""
        if not isinstance(t, dict) or depth > 12:
            return None
        k = t.get("k")
        if k == "array":
            n = t["len"]
            if env is not None and n.get("k") == "cparam":
                n = env.get(n["name"], n)
            if n.get("k") != "cval":
                return "an array of %s elements" % (n.get("name") or "symbolic many")
            return self.big(t["ty"], b, env, depth + 1)
        if k == "tuple":
            return next((r for x in t["tys"] if (r := self.big(x, b, env, depth + 1))), None)
        if k in ("param", "alias"):
            if env is not None and k == "param" and t["name"] in env:
                x = env[t["name"]]
                return self.big(x, b, None, depth + 1)
            return self.storage(t, b)
        if k == "adt":
            if t["path"].startswith(("core::slice::", "core::ptr::", "core::marker::PhantomData", "alloc::", "std::")) or t["path"].startswith("core::iter::") and not t.get("args"):
                return None
            a = self.p.adts.get(t["path"])
            if a:
                e = {n: (self.sub(x, env) if env else x) for (kd, n), x in zip(a["gen"], t.get("args", []))} if a.get("gen") else {}
                for v in a["variants"]:
                    for f in v["fields"]:
                        r = self.big(f["ty"], b, e, depth + 1)
                        if r:
                            return "%s, which holds %s" % (last(t["path"]), r)
                return None
            return next((r for x in t.get("args", []) if isinstance(x, dict) and (r := self.big(x, b, env, depth + 1))), None)
        if k == "closure":
            return None
        return None

    def sub(self, x, env):
        return env.get(x.get("name"), x) if isinstance(x, dict) and x.get("k") == "param" else x

    def storage(self, t, b):
        """a type parameter (or projection) bounded by one of the crate's matrix or role traits"""
        if t["k"] == "alias":
            tr = (t.get("trait") or t.get("path") or "")
            return "%s's storage" % last(t.get("path", "")) if tr.startswith("minikalman::") and not last(t.get("path", "")).endswith("Output") else None
        for p in b["preds"]:
            if "trait" in p and p["args"] and p["args"][0].get("k") == "param" and p["args"][0].get("name") == t["name"] and p["trait"].startswith("minikalman::") and last(p["trait"]) not in ELEM:
                return "%s, storage of any size" % t["name"]
        return None


def inside(prog, b, t):
    """is the receiver a component of the type the function is implemented for (then the types shrink with every call)?"""
    t = strip(t)
    im = prog.impls.get(b.get("impl"))
    if not im or not isinstance(t, dict):
        return False
    names = {x["name"] for x in im["self"].get("args", []) if isinstance(x, dict) and x.get("k") == "param"}

    def mentions(x):
        if isinstance(x, dict):
            return x.get("k") == "param" and x.get("name") in names or any(mentions(v) for v in x.values() if isinstance(v, (dict, list)))
        return isinstance(x, list) and any(mentions(v) for v in x)
    if t.get("k") in ("param", "alias"):
        return mentions(t)
    return False


class Calls(Graph):
    """edges along which recursion would not end with the nesting of types"""

    def edges(self, b):
        out = []
        for bl in b["body"]["blocks"]:
            t = bl["t"]
            if t["k"] != "call" or bl["cleanup"]:
                continue
            c = t["f"].get("const", {}) if isinstance(t["f"], dict) else {}
            if "fn" not in c:
                continue
            sp = c.get("rsp") or c["sp"]
            if sp in self.p.bodies:
                out.append(self.p.bodies[sp])
                continue
            tr, m = c.get("trait"), last(c["fn"])
            if not tr or c.get("rsp") or not tr.startswith("minikalman::") or inside(self.p, b, c.get("self") or {}):
                continue
            s = strip(c.get("self") or {})
            # impls a receiver of this type can select
            for im, isp in self.local.get((tr, m), []):
                if isp in self.p.bodies and (s.get("k") != "adt" or im["self"].get("path") == s.get("path")):
                    out.append(self.p.bodies[isp])
            d = self.p.default.get("%s::%s" % (tr, m))
            if d in self.p.bodies:
                out.append(self.p.bodies[d])
        return out + [x for x in self.clos.get(b["path"], []) if x.get("body")]


def cycle(g, b):
    """a call path from b back to b"""
    seen, st = {}, [(b, None)]
    while st:
        x, par = st.pop()
        for y in g.edges(x) if x.get("body") else []:
            if y["sp"] == b["sp"]:
                path = [x["path"]]
                while x["sp"] in seen:
                    x = seen[x["sp"]]
                    path.append(x["path"])
                return path[::-1]
            if y["sp"] not in seen:
                seen[y["sp"]] = x
                st.append((y, x))
    return None


def check_stack(prog):
    g, cg, sz = Graph(prog), Calls(prog), Sizes(prog)
    out, frame, loops = [], {}, {}

    def held(b):
        """dimension-sized locals of one frame"""
        if b["sp"] not in frame:
            L = b["body"]["locals"]
            frame[b["sp"]] = next(((i, r) for i, t in enumerate(L) if (r := sz.big(t, b))), None)
        return frame[b["sp"]]

    def rec(b):
        if b["sp"] not in loops:
            loops[b["sp"]] = cycle(cg, b)
        return loops[b["sp"]]
    for b in roots(prog):
        L, argc = b["body"]["locals"], b["body"]["argc"]
        if any(sz.big(t, b) or t.get("k") == "adt" and t["path"] in prog.adts for t in L[:argc + 1]):
            continue                                     # takes or returns an object by value: constructors and conversions
        seen, st, par, bad = {b["sp"]}, [b], {}, None
        while st and not bad:
            x = st.pop()
            path = lambda y: [y["path"]] + (path(par[y["sp"]]) if y["sp"] in par else [])
            h = held(x)
            if h:
                bad = "%s keeps %s in its frame (local _%d)" % (x["path"].replace("minikalman::", ""), h[1], h[0])
            else:
                c = rec(x)
                if c:
                    bad = "%s calls itself: %s" % (x["path"].replace("minikalman::", ""), " -> ".join(p.replace("minikalman::", "") for p in c))
            if bad:
                bad += ", reached through %s" % " -> ".join(p.replace("minikalman::", "") for p in path(x)[::-1])
                break
            for y in g.calls(x)[0]:
                if y["sp"] not in seen and y.get("body"):
                    seen.add(y["sp"])
                    par[y["sp"]] = x
                    st.append(y)
        out.append(Goal("constant stack: %s" % base(b), VIOLATED if bad else HOLDS, "%s (%s)" % (b["path"].replace("minikalman::", ""), short(b["span"])), bad or "%d frames reachable" % len(seen), RULE))
    return out
