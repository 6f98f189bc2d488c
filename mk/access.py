"""Components of filters, controls and observations: constructors keep what they are given, accessors expose the
stored component, inspect/apply hand over the object itself - and none of them alters anything."""
from .poly import *
from .prog import last
from .interp import Undecided, Endless, Ref, Op, Agg, Arr, Sl, B
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED, short
from . import kernels as K
from . import storage as St

RULE = "constructors store each argument unchanged; accessors return a reference to the stored component of the result type, unconditionally and without effect"
OWN = ("minikalman::kalman::", "minikalman::controls::", "minikalman::observations::")


def components(prog):
    """local structs outside the buffers that hold role buffers: those constructed by a builder"""
    out = {}
    for a in prog.d["adts"]:
        if a["path"].startswith(OWN) and len(a["variants"]) == 1 and any(f["ty"]["k"] == "param" for f in a["variants"][0]["fields"]):
            out[a["path"]] = a
    return out


def changed(k):
    """argument storages written to"""
    out = []
    for n, s in k.st.arrs.items():
        if s != ("init", n) and not (isinstance(n, tuple) and n[0] == "new"):
            out.append(n)
    return out


def deref(k, v):
    n = 0
    while isinstance(v, Ref) and n < 8:
        w = k.I.load(k.st, v.root, v.path)
        if w == v:
            break
        v = w
        n += 1
    return v


def own_changed(k):
    """argument objects whose fields were replaced"""
    out = []
    for i, (a, t) in enumerate(zip(k.args, k.tys)):
        if isinstance(a, Ref) and a.path == () and a.root in k.st.mem:
            o = k.st.mem[a.root]
            if not (isinstance(o, Op) and o.name == a.root[1]):
                if isinstance(o, Agg) and all(same_field(k, f, a, j) for j, f in enumerate(o.fields)):
                    continue
                out.append("argument %d" % (i + 1))
    return out


def same_field(k, f, a, j):
    if isinstance(f, Agg) and "PhantomData" in f.path:
        return True
    return isinstance(f, Op) and f.name == "%s.%d" % (a.root[1], j)


def noted(k):
    return [n for n in k.I.notes if not n.startswith("uninterpreted")]


def check_access(prog):
    out = []
    comps = components(prog)
    for b in prog.d["bodies"]:
        if b["kind"] != "AssocFn" or not b.get("body") or b.get("derive"):
            continue
        im = prog.impls.get(b.get("impl"))
        if not im or not b["path"].replace("<", "").startswith("minikalman"):
            continue
        L = b["body"]["locals"]
        rt, argc = L[0], b["body"]["argc"]
        sp = im["self"].get("path")
        if sp in comps and argc == 1 and rt["k"] == "ref" and L[1]["k"] == "ref" and L[1]["ty"].get("path") == sp:
            out.append(guard(b, lambda: accessor(prog, b, comps[sp])))
        elif rt["k"] == "adt" and rt["path"] in comps and argc >= 2 and im["self"].get("path", "").startswith(OWN) and sp not in comps:
            out.append(guard(b, lambda: constructor(prog, b, comps[rt["path"]])))
    for t, m in (("Matrix", "inspect"), ("MatrixMut", "apply")):
        bs = K.bodies(prog, t, m)
        if not bs:
            out.append(Goal("%s::%s" % (t, m), VIOLATED, "minikalman", "no analysable body", RULE))
        for b, imp in bs:
            out.append(guard(b, lambda: visitor(prog, b)))
    return out


def guard(b, f):
    ky, wh = St.base(b), St.where(b)
    try:
        st, d = f()
    except Undecided as e:
        st, d = (VIOLATED if isinstance(e, Endless) else UNDECIDED), str(e)
    return Goal(ky, st, wh, d, RULE)


def roles(I, s, c, args, fr, sp):
    """the matrix behind a component is the component's storage"""
    if last(c["fn"]) in ("as_matrix", "as_matrix_mut") and "minikalman" in c.get("trait", "") and (c.get("self") or {}).get("k") in ("param", "alias"):
        return args[0]
    return NotImplemented


def accessor(prog, b, adt):
    k = St.Fn(prog, b)
    k.I.hooks.insert(0, roles)
    k.run()
    if k.ret is None:
        return VIOLATED, "never returns"
    soft = UNDECIDED if noted(k) else VIOLATED
    w = own_changed(k)
    if w:
        return soft, "modifies %s" % ", ".join(map(str, w))
    v, det = St.altered(k, changed(k))
    if v != HOLDS:
        return v, det
    r = k.ret
    n = 0
    while isinstance(r, Ref) and r.root[0] != "o" and n < 6:
        r = k.I.load(k.st, r.root, r.path)
        n += 1
    if not isinstance(r, Ref):
        return UNDECIDED, "result %s" % (r,)
    if noted(k):
        return UNDECIDED, noted(k)[0]
    fs = adt["variants"][0]["fields"]
    if r.root != ("o", "a1") or len(r.path) != 1 or not isinstance(r.path[0], int):
        return VIOLATED, "returns a reference to %s%s instead of a component" % (r.root[1], list(r.path))
    return HOLDS, "component %s" % fs[r.path[0]]["name"]


def constructor(prog, b, adt):
    k = St.Fn(prog, b)
    k.I.hooks.insert(0, roles)
    k.run()
    if k.ret is None:
        return VIOLATED, "never returns"
    soft = UNDECIDED if noted(k) else VIOLATED
    v, det = St.altered(k, changed(k))
    if v != HOLDS:
        return v, "alters its argument: " + det
    r = deref(k, k.ret)
    if not isinstance(r, Agg) or r.path != adt["path"]:
        return UNDECIDED, "result %s" % (r,)
    fs = adt["variants"][0]["fields"]
    L = b["body"]["locals"]
    used = []
    for f, v in zip(fs, r.fields):
        if f["ty"]["k"] != "param":
            continue
        v = deref(k, v)
        cand = [i for i, a in enumerate(k.args) if isinstance(v, Op) and isinstance(a, Op) and a.name == v.name]
        if not cand:
            return (UNDECIDED if noted(k) or not isinstance(v, (Op, Arr, Sl)) else VIOLATED), "component %s is not an argument: %s" % (f["name"], v)
        used.append(cand[0])
    if len(set(used)) != len(used):
        return VIOLATED, "an argument is stored twice"
    if noted(k):
        return UNDECIDED, noted(k)[0]
    return HOLDS, "%d components stored as given" % len(used)


def visitor(prog, b):
    k = St.Fn(prog, b)
    calls = []

    def hook(I, s, c, args, fr, sp):
        if last(c.get("trait", "")) not in ("Fn", "FnMut", "FnOnce"):
            return NotImplemented
        g = args[0]
        n = 0
        while isinstance(g, Ref) and n < 8:
            g = I.load(s, g.root, g.path)
            n += 1
        if not (isinstance(g, Op) and g.name == "a2"):
            return NotImplemented
        if I.loopstack:
            raise Undecided("user function called in a loop")
        parts = list(args[1].fields) if isinstance(args[1], Agg) else [args[1]]
        cx = I.ctx()
        calls.append((parts, tuple(x for x in list(I.base_conds) + list(s.cond) if not cx.entails(x)), changed(k)))
        return Op("user%d" % len(calls), '{"k": "param", "name": "O", "idx": 0}')
    k.I.hooks.insert(0, hook)
    k.run()
    if k.ret is None:
        return VIOLATED, "never returns"
    if noted(k):
        return UNDECIDED, noted(k)[0]
    if len(calls) != 1:
        return VIOLATED, "the function is called %d times" % len(calls)
    parts, conds, ch = calls[0]
    if conds:
        return VIOLATED, "the function is called only under %s" % ", ".join(map(show, conds))[:200]
    v, det = St.altered(k, changed(k))
    if v != HOLDS:
        return v, "besides the function: " + det
    r = deref(k, k.ret)
    if not (isinstance(r, Op) and r.name == "user1"):
        return VIOLATED, "does not return the function's result: %s" % (r,)
    v = parts[0]
    n = 0
    while isinstance(v, Ref) and v.root[0] != "o" and n < 6:
        v = k.I.load(k.st, v.root, v.path)
        n += 1
    if not (isinstance(v, Ref) and v.root == ("o", "a1") and v.path == ()):
        return VIOLATED, "hands over %s instead of the matrix itself" % (v,)
    return HOLDS, "calls the function once with the matrix itself"
