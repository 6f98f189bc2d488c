"""Heap and operating-system freedom: callees reachable from steps, matrix operations and element access."""
from .prog import last
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED, short
from .storage import base

RULE = "no function reachable from a filter step, matrix operation, accessor or borrowing conversion allocates or calls into std's services; no_std configurations do not load std, or alloc without the feature"
OWN = ("minikalman::kalman::", "minikalman::controls::", "minikalman::observations::", "minikalman::matrix::")
FREE = {"core", "num_traits", "libm", "micromath", "fixed", "az", "typenum", "compiler_builtins", "minikalman"}
# functions of alloc that only look at or take apart what exists
LOOK = {"as_ref", "as_mut", "deref", "deref_mut", "borrow", "borrow_mut", "index", "index_mut", "len", "is_empty", "as_slice", "as_mut_slice", "as_ptr", "as_mut_ptr", "capacity", "drop", "into_raw", "leak", "eq", "ne", "cmp", "partial_cmp", "fmt", "into_iter", "next", "swap_remove", "pop", "truncate", "clear", "as_bytes", "as_str", "from_raw", "iter", "iter_mut", "hash", "type_id", "new_const"}
MAKE = {"collect", "from_iter", "extend", "into", "from", "clone", "to_owned", "default", "clone_from", "try_into", "try_from", "sum"}
VIEW = {"Index", "IndexMut", "AsRef", "AsMut", "Deref", "DerefMut", "Borrow", "BorrowMut", "From", "Into"}
OWNING = ("alloc::boxed::", "alloc::vec::", "alloc::string::", "alloc::rc::", "alloc::sync::", "alloc::collections::")


def owns(t):
    """does a type own heap memory itself (Box, Vec, ...)?"""
    if isinstance(t, dict):
        if t.get("k") == "adt" and t["path"].startswith(OWNING):
            return True
        return any(owns(v) for v in t.values() if isinstance(v, (dict, list)))
    if isinstance(t, list):
        return any(owns(v) for v in t)
    return False


class Graph:
    def __init__(self, prog):
        self.p = prog
        self.local = {}
        for (tr, m), xs in prog.impl_items.items():
            for im, it in xs:
                self.local.setdefault((tr, m), []).append((im, it["sp"]))
        self.clos = {}
        for b in prog.d["bodies"]:
            i = b["path"].find("::{closure")
            if i > 0:
                self.clos.setdefault(b["path"][:i], []).append(b)
        self.memo = {}

    def calls(self, b):
        """(edges to local bodies, [(callee, verdict, text)])"""
        if b["sp"] in self.memo:
            return self.memo[b["sp"]]
        edges, bad = [], []
        for bl in b["body"]["blocks"]:
            t = bl["t"]
            if t["k"] != "call" or bl["cleanup"]:
                continue
            c = t["f"].get("const", {}) if isinstance(t["f"], dict) else {}
            if "fn" not in c:
                continue                       # a value of function type: the user's
            sp = c.get("rsp") or c["sp"]
            if sp in self.p.bodies:
                edges.append(self.p.bodies[sp])
                continue
            tr = c.get("trait")
            m = last(c["fn"])
            if tr and not c.get("rsp"):
                s = c.get("self") or {}
                for im, isp in self.local.get((tr, m), []):
                    if isp not in self.p.bodies:
                        continue
                    if s.get("k") == "adt" and im["self"].get("path") != s.get("path"):
                        continue
                    if s.get("k") != "adt" and not tr.startswith("minikalman::"):
                        continue               # a foreign trait of a type parameter: the user's
                    edges.append(self.p.bodies[isp])
                d = self.p.default.get("%s::%s" % (tr, m))
                if d in self.p.bodies:
                    edges.append(self.p.bodies[d])
            root = sp.lstrip("<").split("::")[0]
            n = last(c.get("rfn") or c["fn"])
            where = short(bl.get("span") or t.get("span") or b["span"])
            if root == "alloc":
                if n not in LOOK:
                    bad.append((VIOLATED, "calls %s" % (c.get("rfn") or c["fn"]), where))
            elif root == "std":
                if not sp.startswith(("std::f32::", "std::f64::", "std::num::")):
                    bad.append((VIOLATED, "calls %s" % (c.get("rfn") or c["fn"]), where))
            elif root not in FREE and not sp.startswith("{"):
                bad.append((UNDECIDED, "calls %s, not known to be free of allocation" % sp, where))
            elif n in MAKE and (owns(c.get("args")) or owns(c.get("rargs"))):
                if not (n in ("into", "from") and same(c)):
                    bad.append((VIOLATED, "%s creates a heap-owning value" % c["fn"], where))
        edges += [x for x in self.clos.get(b["path"], []) if x.get("body")]
        self.memo[b["sp"]] = (edges, bad)
        return edges, bad

    def reach(self, b):
        seen, st, par = {b["sp"]: b}, [b], {}
        while st:
            x = st.pop()
            if not x.get("body"):
                continue
            e, bad = self.calls(x)
            for st_, d, w in bad:
                path = [x["path"]]
                y = x
                while y["sp"] in par:
                    y = par[y["sp"]]
                    path.append(y["path"])
                return (st_, d, w, [q.replace("minikalman::", "") for q in path[::-1]]), len(seen)
            for y in e:
                if y["sp"] not in seen:
                    seen[y["sp"]] = y
                    par[y["sp"]] = x
                    st.append(y)
        return None, len(seen)


def same(c):
    """identity conversion"""
    a = c.get("args") or []
    return len(a) == 2 and a[0] == a[1]


def roots(prog):
    ctor = {a["path"] for a in prog.d["adts"]}
    for b in prog.d["bodies"]:
        if not b.get("body") or "{closure" in b["path"] or b.get("derive"):
            continue
        L = b["body"]["locals"]
        argc = b["body"]["argc"]
        im = prog.impls.get(b.get("impl"))
        tr = last(im["trait"]) if im and "trait" in im else None
        if tr in ("Clone", "Default", "FromIterator", "Debug", "ToOwned"):
            continue
        if owns(L[0]) and not any(owns(x) for x in L[1:argc + 1]):
            continue                                   # returns fresh heap memory by its signature
        ret = L[0]
        if heapy(prog, ret) and not any(owns(x) or heapy(prog, x) for x in L[1:argc + 1]):
            continue                                   # constructors of boxed containers
        p = b["path"].lstrip("<")
        sf = (im or {}).get("self", {}).get("path", "")
        if p.startswith(OWN) or sf.startswith(OWN) or tr and (im["trait"].startswith(OWN) or tr in VIEW):
            yield b


def heapy(prog, t):
    """a type of the crate that owns heap memory by definition, or an instance of one over such a type"""
    if not isinstance(t, dict) or t.get("k") != "adt":
        return False
    a = prog.adts.get(t["path"])
    if not a:
        return False
    if any(owns(f["ty"]) or heapy(prog, f["ty"]) for v in a["variants"] for f in v["fields"]):
        return True
    return any(owns(x) or heapy(prog, x) for x in t.get("args", []) if isinstance(x, dict))


def check_noalloc(prog):
    g = Graph(prog)
    out = []
    for b in roots(prog):
        r, n = g.reach(b)
        ky = "heap-free: %s" % base(b)
        wh = "%s (%s)" % (b["path"].replace("minikalman::", ""), short(b["span"]))
        if r is None:
            out.append(Goal(ky, HOLDS, wh, "%d functions reachable" % n, RULE))
        else:
            st, d, w, path = r
            out.append(Goal(ky, st, wh, "%s at %s, reached through %s" % (d, w, " -> ".join(path)), RULE))
    fs = set(prog.d["features"])
    cr = set(prog.d["crates"])
    if "std" not in fs:
        out.append(Goal("std is not linked", VIOLATED if "std" in cr else HOLDS, "crate minikalman", "crates loaded: %s" % ", ".join(sorted(cr)), RULE))
        if not fs & {"alloc", "nalgebra", "fixed"}:
            out.append(Goal("alloc is not linked", VIOLATED if "alloc" in cr else HOLDS, "crate minikalman", "crates loaded: %s" % ", ".join(sorted(cr)), RULE))
    return out
