"""Builders, constructors and accessors: complete, correctly sized, default-initialised buffers; access to the object's own buffers."""
from .poly import *
from .fm import Ctx
from .prog import last
from .interp import Undecided, Ref, Agg, Op, Arr, Sl
from .arrays import equal
from . import pit
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED
from . import storage as St
from .storage import Fn, adt_of, where, base, guarded, lib_notes, names

RULE = "built buffers hold exactly rows x columns elements, all default; constructors and accessors hand over the object's own buffers unchanged"


def leaves(k, v, ty, ns, path=""):
    """containers inside an aggregate: (path, value, type)"""
    I = k.I
    if ty["k"] != "adt":
        return
    if ty["path"] in ns:
        yield path, v, ty
        return
    a = k.prog.adts.get(ty["path"])
    if not a or len(a["variants"]) != 1 or not isinstance(v, Agg):
        return
    env = {}
    for (kind, n), x in zip(a["gen"], ty["args"]):
        env[n] = I.cpoly(x, {}) if kind == "const" else x
    for f, x in zip(a["variants"][0]["fields"], v.fields):
        ft = I.ty_sub(f["ty"], env)
        yield from leaves(k, x, ft, ns, path + "." + f["name"])


def dims_of(k, ns, ty):
    env = {}
    k.I.unify(ns[ty["path"]]["self"], k.I.jsonable(ty), env)
    return [k.I.cpoly(a, env) for a in ns[ty["path"]]["targs"][1:3]]


def check_builders(prog):
    out = []
    ns = names(prog)
    n = 0
    for b in prog.d["bodies"]:
        im = prog.impls.get(b.get("impl"))
        if not im or b["kind"] != "AssocFn" or not b.get("body") or im["self"]["k"] != "adt":
            continue
        p = im["self"]["path"]
        if p.startswith(("minikalman::buffers::builder", "minikalman::kalman_builder")):
            rp = adt_of(St_rty(b))
            if rp is None:
                continue
            adt = prog.adts.get(rp)
            if adt is None or rp.startswith(("minikalman::buffers::builder", "minikalman::kalman_builder")):
                continue
            ky = base(b)
            out += guarded(RULE, ky, where(b), lambda: built(prog, b, ns, ky))
    return out + check_new(prog) + check_access(prog)


def St_rty(b):
    return b["body"]["locals"][0]


def built(prog, b, ns, ky):
    k = Fn(prog, b)
    I = k.I
    I.pos = set()
    k.run()
    wh = where(b)
    if k.ret is None:
        return [Goal(ky, VIOLATED, wh, "never returns", RULE)]
    soft = UNDECIDED if lib_notes(k) else VIOLATED
    out = []
    nonneg = [ge0(sym(n)) for n in k.pos]
    for o in I.obl:
        if o["kind"] == "panic" or o["kind"].startswith("assert"):
            cs = [I.norm(c) for c in o["conds"]] + [neg(I.norm(o["goal"]))]
            if not Ctx(nonneg + cs, []).infeasible():
                out.append(Goal(ky + ": no rejection", soft, wh, "can panic at " + o["span"], RULE))
    lv = list(leaves(k, k.ret, k.rty, ns))
    if not lv:
        return out + [Goal(ky, UNDECIDED, wh, "no buffers found in the result", RULE)]
    init = [a for a, t in zip(k.args, k.tys) if t["k"] == "param" and not k.stores(t["name"])]
    seen = set()
    for path, v, ty in lv:
        kk = ky + path
        s = k.view(v, ty, "ret" + path)
        if s is None:
            out.append(Goal(kk, UNDECIDED, wh, "no storage view", RULE))
            continue
        d = dims_of(k, ns, ty)
        n = d[0] * d[1]
        cx = Ctx(nonneg, [])
        vd = [pit.verdict(s.n, n, cx, soft, I), pit.verdict(s.off, ZERO, cx, soft, I)]
        if vd != [HOLDS, HOLDS]:
            out.append(Goal(kk, VIOLATED if VIOLATED in vd else UNDECIDED, wh, "%s elements allocated for a %s x %s buffer" % (show(s.n), show(d[0]), show(d[1])), RULE))
            continue
        if s.arr in seen:
            out.append(Goal(kk, soft, wh, "shares storage with another buffer", RULE))
            continue
        seen.add(s.arr)
        x = sym("x")
        cx = Ctx(nonneg + [ge0(x), ge0(n - 1 - x)], [])
        got = k.now(s, x, cx)
        if len(init) == 1:
            vd = pit.verdict(got, I.as_poly(init[0]), cx, soft, I)
            want = "the initial value"
        else:
            vd = HOLDS if isdefault(got) else soft
            want = "the default value"
        ok = vd == HOLDS
        out.append(Goal(kk, vd, wh, "%s elements, each %s" % (show(s.n), show(got)) + ("" if ok else "; required " + want), RULE))
    return out


def isdefault(p):
    if p == ZERO:
        return True
    a = as_atom(p)
    return a is not None and a[0] == "fn" and a[1].startswith(("default", "call:core::default::Default::default")) or show(p).startswith("default(")


OBJ = ("minikalman::kalman", "minikalman::controls", "minikalman::observations")


def same_value(k, a, b, depth=0):
    """is value a (of the result) the argument b, unchanged?"""
    if a == b:
        return True
    I, st = k.I, k.st
    if isinstance(a, Op) or isinstance(b, Op):
        x = I.expand_op(st, a) if isinstance(a, Op) else a
        y = I.expand_op(st, b) if isinstance(b, Op) else b
        if x is not None and y is not None and depth < 4 and (x, y) != (a, b):
            return same_value(k, x, y, depth + 1)
        return False
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.path == b.path and len(a.fields) == len(b.fields) and all(same_value(k, x, y, depth + 1) for x, y in zip(a.fields, b.fields))
    return False


def clean(k):
    """no storage was written"""
    return all(S == ("init", a) for a, S in k.st.arrs.items() if isinstance(a, str)) or St.frame_ok(k)


def check_new(prog):
    """constructors of filters, controls and observations keep every buffer they are given"""
    out = []
    for b in prog.d["bodies"]:
        im = prog.impls.get(b.get("impl"))
        if not im or "trait" in im or b["kind"] != "AssocFn" or not b.get("body") or im["self"]["k"] != "adt":
            continue
        if not im["self"]["path"].startswith(OBJ):
            continue
        rp = adt_of(St_rty(b))
        if rp is None or not rp.startswith(OBJ) or St_rty(b)["k"] == "ref" or b["body"]["argc"] < 3:
            continue
        ky = base(b)

        def go():
            k = Fn(prog, b).run()
            wh = where(b)
            if not isinstance(k.ret, Agg):
                return [Goal(ky, UNDECIDED, wh, "result is not a value of %s" % rp, RULE)]
            soft = UNDECIDED if lib_notes(k) else VIOLATED
            gs = []
            left = list(range(len(k.args)))
            if not clean(k):
                return [Goal(ky, soft, wh, "changes the contents of a buffer", RULE)]
            for i, f in enumerate(k.prog.adts[rp]["variants"][0]["fields"]):
                v = k.ret.fields[i]
                if f["ty"]["k"] != "param":
                    continue
                hit = [j for j in left if same_value(k, v, k.args[j])]
                ok = len(hit) == 1
                if ok:
                    left.remove(hit[0])
                gs.append(Goal("%s.%s" % (ky, f["name"]), HOLDS if ok else soft, wh, "holds argument %s" % (hit[0] + 1) if ok else "holds none of the arguments unchanged: %s" % (v,), RULE))
            return gs
        out += guarded(RULE, ky, where(b), go)
    return out


def check_access(prog):
    """accessors of filters, controls and observations refer to the object's own field and change nothing"""
    out = []
    for b in prog.d["bodies"]:
        im = prog.impls.get(b.get("impl"))
        if not im or b["kind"] != "AssocFn" or not b.get("body") or im["self"]["k"] != "adt" or not im["self"]["path"].startswith(OBJ):
            continue
        L = b["body"]["locals"]
        if b["body"]["argc"] != 1 or L[1]["k"] != "ref" or L[0]["k"] != "ref":
            continue
        ky = base(b)
        if im.get("trait"):
            ky = "%s as %s::%s" % (last(im["self"]["path"]), last(im["trait"]), b["name"])

        def go():
            k = Fn(prog, b).run()
            wh = where(b)
            soft = UNDECIDED if lib_notes(k) else VIOLATED
            if k.ret is None:
                return [Goal(ky, soft, wh, "never returns", RULE)]
            r, a = k.ret, k.args[0]
            ok = isinstance(r, Ref) and isinstance(a, Ref) and r.root == a.root and len(r.path) == len(a.path) + 1
            if not ok:
                return [Goal(ky, soft, wh, "does not refer to a buffer of the object: %s" % (r,), RULE)]
            if not clean(k):
                return [Goal(ky, soft, wh, "changes the contents of a buffer", RULE)]
            return [Goal(ky, HOLDS, wh, "field %s" % (r.path[-1],), RULE)]
        out += guarded(RULE, ky, where(b), go)
    return out
