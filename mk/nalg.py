"""nalgebra integration: the raw storage describes the same row-major matrix."""
from itertools import product
from .poly import *
from .fm import Ctx
from .prog import last
from .interp import Undecided, Agg, B, Sl, Ref
from .arrays import equal
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED, short
from . import kernels as K
from . import storage as St
from . import models
from . import safety
from . import pit

RULE = "RawStorage describes ROWS x COLS elements of the container's row-major storage, all of them inside it"


def dimval(I, ty, env, val=None):
    """size expression of a nalgebra dimension type (or of a Dyn value)"""
    if ty["k"] == "adt" and last(ty["path"]) == "Const":
        return I.cpoly(ty["args"][0], env)
    if ty["k"] == "adt" and last(ty["path"]) == "Dyn" and isinstance(val, Agg) and len(val.fields) == 1:
        return I.as_poly(val.fields[0])
    return None


def check_nalgebra(prog):
    out = []
    ns = St.names(prog)
    im_ = [i for i in prog.impls_of("RawStorage")]
    for im in im_:
        p = im["self"].get("path")
        nm = last(p or "?")
        wh = "impl RawStorage for %s (%s)" % (nm, short(im["span"]))
        if p not in ns:
            out.append(Goal("RawStorage for %s" % nm, UNDECIDED, wh, "not a container", RULE))
            continue
        bodies = {it["name"]: prog.bodies.get(it["sp"]) for it in im["items"]}
        types = {it["name"]: it.get("ty") for it in im["items"]}
        out += St.guarded(RULE, "RawStorage for %s" % nm, wh, lambda: one(prog, im, ns[p], nm, wh, bodies, types))
    for ic in prog.impls_of("IsContiguous"):
        for im in im_:
            if im["self"].get("path") == ic["self"].get("path") and ic["self"].get("path") in ns:
                out += St.guarded(CRULE, "IsContiguous for %s" % last(ic["self"]["path"]), "impl IsContiguous (%s)" % short(ic["span"]), lambda: contiguous(prog, ic, im))
    if prog.impls_of("IsContiguous") and not im_:
        out.append(Goal("RawStorage", VIOLATED, "minikalman", "no container implements RawStorage", RULE))
    return out


CRULE = "nalgebra reads storage marked IsContiguous in column-major order (as_slice, m11.., AsRef<[[T; R]; C]>), so the strides must be (1, ROWS)"


def contiguous(prog, ic, im):
    """a storage marked contiguous is read without its strides: they must be the column-major ones"""
    nm = last(ic["self"]["path"])
    wh = "impl IsContiguous for %s (%s)" % (nm, short(ic["span"]))
    types = {it["name"]: it.get("ty") for it in im["items"]}
    k = St.Fn(prog, prog.bodies[next(it["sp"] for it in im["items"] if it["name"] == "ptr")])
    env = {}
    k.I.unify(im["self"], k.I.jsonable(ic["self"]), env)
    gen = {n: (sym(n) if kk == "const" else None) for kk, n in ic["gen"]}
    full = {n: v for n, v in env.items()}

    def dim(ty):
        if ty["k"] != "adt" or last(ty["path"]) != "Const":
            return None
        return k.I.cpoly(ty["args"][0], full)
    rs, cs = dim(types["RStride"]), dim(types["CStride"])
    rows, cols = dim(im["targs"][2]), dim(im["targs"][3])
    key = "IsContiguous for %s: contiguous views are the row-major matrix" % nm
    if None in (rs, cs, rows, cols):
        return [Goal(key, UNDECIDED, wh, "cannot read the strides", CRULE)]
    nonneg = [ge0(v - ONE) for n, v in gen.items() if v is not None]
    cx = Ctx(nonneg, [])
    okr = equal(rs, ONE, cx) or cx.entails(eq0(rows - ONE))
    okc = equal(cs, rows, cx) or cx.entails(eq0(cols - ONE))
    d = "%s x %s with strides (%s, %s)" % tuple(show(v) for v in (rows, cols, rs, cs))
    if okr and okc:
        return [Goal(key, HOLDS, wh, d, CRULE)]
    # a shape at which the two readings differ
    names = [n for n, v in gen.items() if v is not None]
    for vals in product((1, 2, 3), repeat=len(names)):
        m = dict(zip(names, vals))
        try:
            r, c, a, b = [pit.Ev(k.I, m, None).n(v, m) for v in (rows, cols, rs, cs)]
        except Exception:
            break
        for i, j in product(range(r), range(c)):
            if i * a + j * b != i + j * r:
                return [Goal(key, VIOLATED, wh, d + "; as a %d x %d matrix element (%d, %d) is at %d, but contiguous views read it at %d" % (r, c, i, j, i * a + j * b, i + j * r), CRULE)]
    return [Goal(key, UNDECIDED, wh, d, CRULE)]


def provided(I, s, c, args, fr, sp):
    """nalgebra's own bodies: dimensions of constants, and element access that is not overridden"""
    o, m = models.key(c["fn"])
    if (o, m) in (("Dim", "value"), ("Const", "value"), ("DimName", "dim"), ("Const", "dim"), ("DimName", "value")):
        ty = c.get("self") or (c["args"][0] if c.get("args") else None)
        if ty and ty["k"] == "adt" and last(ty["path"]) == "Const":
            return I.cpoly(ty["args"][0], {})
        return NotImplemented
    if o != "RawStorage" or m not in ACCESS or I.resolve(c)[0] is not None:
        return NotImplemented
    if m == "linear_index":
        ty = c.get("self") or c["args"][0]
        im = next((i for i in I.prog.impls_of("RawStorage") if i["self"].get("path") == ty.get("path")), None)
        if im is None:
            return NotImplemented
        env = {}
        if not I.unify(im["self"], ty, env):
            return NotImplemented
        st = [dimval(I, it["ty"], env) for nm in ("RStride", "CStride") for it in im["items"] if it["name"] == nm]
        if len(st) != 2 or None in st:
            return NotImplemented
        return models.num(I, s, args[1]) * st[0] + models.num(I, s, args[2]) * st[1]

    def sub(name, *a):
        d = dict(c, fn=c["fn"].rsplit("::", 1)[0] + "::" + name, sp=(c.get("sp") or "").rsplit("::", 1)[0] + "::" + name)
        for x in ("rfn", "rsp", "rargs", "rlocal"):
            d.pop(x, None)
        return I.call(s, d, list(a), fr, sp)
    if m == "get_address_unchecked_linear":
        V = models.view(I, s, sub("ptr", args[0]))
        return models.mkptr(V, models.num(I, s, args[1]))
    if m == "get_address_unchecked":
        return sub("get_address_unchecked_linear", args[0], sub("linear_index", *args))
    if m == "get_unchecked_linear":
        b, ix = models.deref_ptr(I, s, sub("get_address_unchecked_linear", *args), ONE, sp, fr)
        return Ref(("arr", b.arr), (("ix", b.off + ix),))
    return sub("get_unchecked_linear", args[0], sub("linear_index", *args))


ACCESS = ("linear_index", "get_address_unchecked", "get_address_unchecked_linear", "get_unchecked", "get_unchecked_linear")


def element(I, s, v):
    """(array, index) of the element a reference or pointer denotes"""
    if isinstance(v, Ref) and v.root[0] == "arr" and len(v.path) == 1 and v.path[0][0] == "ix":
        return v.root[1], v.path[0][1]
    if isinstance(v, Agg) and v.path == "ptr":
        b, ix = v.fields
        return b.arr, b.off + ix
    return None


def overrides(prog, nm, wh, bodies, rows, cols, env):
    """element access that replaces nalgebra's provided methods"""
    out = []
    for f in ACCESS:
        b = bodies.get(f)
        if b is None:
            continue
        key = "RawStorage for %s: %s" % (nm, f)
        wb = K.where_of(b)

        def go():
            res = []
            k = St.Fn(prog, b)
            k.I.hooks.append(provided)
            k.run()
            I = k.I
            ix = [I.as_poly(a) for a in k.args[1:]]
            if f.endswith("linear"):
                want = ix[0]
                rng = [ge0(ix[0]), ge0(rows * cols - ONE - ix[0])]
            else:
                want = ix[0] * cols + ix[1]
                rng = [ge0(ix[0]), ge0(rows - ONE - ix[0]), ge0(ix[1]), ge0(cols - ONE - ix[1]), ge0(rows * cols - ONE - want), ge0(want)]
            V = k.views[0]
            nonneg = rng + [ge0(rows - ONE), ge0(cols - ONE), ge0(V.n - rows * cols)]
            cx = Ctx(nonneg + [I.norm(c) for c in k.st.known], [])
            if f == "linear_index":
                got, arr = I.as_poly(k.ret), V.arr
            else:
                r = element(I, k.st, k.ret)
                if r is None:
                    return [Goal(key, UNDECIDED, wb, "not an element of the storage", RULE)]
                arr, got = r
            if k.st.arrs.get(V.arr, ("init", V.arr)) != ("init", V.arr):
                res.append(Goal(key + " changes nothing", VIOLATED, wb, "writes the storage", RULE))
            if arr != V.arr:
                st, d = VIOLATED, "an element of %s, not of the matrix" % arr
            else:
                st, d = pit.verdict(got, want, cx, VIOLATED, I), ""
            res.append(Goal(key, st, wb, "element (%s) is at %s%s%s" % (", ".join(show(x) for x in ix), show(got), "" if st == HOLDS else ", required %s" % show(want), ("; " + str(d)) if d else ""), RULE))
            for o in I.obl:
                st, d = safety.decide(I, o, nonneg, [])
                if st != HOLDS:
                    res.append(Goal(key + " returns", st, wb, d, RULE))
            return res
        out += St.guarded(RULE, key, wb, go)
    return out


INSIDE = ("all elements inside the storage", "slice inside the storage", "reach")


def inside(prog):
    """nalgebra's safe views of a storage stay inside it"""
    return [g for g in check_nalgebra(prog) if g.key.startswith("RawStorage for ") and g.key.split(": ", 1)[-1] in INSIDE]


def one(prog, im, hdr, nm, wh, bodies, types):
    out = []

    def G(key, ok, detail, where=None, soft=VIOLATED):
        out.append(Goal("RawStorage for %s: %s" % (nm, key), HOLDS if ok else soft, where or wh, detail, RULE))
    runs = {}
    for f in ("ptr", "shape", "strides", "is_contiguous", "as_slice_unchecked"):
        b = bodies.get(f)
        if b is None:
            if f in ("ptr", "shape", "strides"):
                G(f, False, "no such function")
            continue
        k = St.Fn(prog, b)
        k.I.pos = set()
        k.I.hooks.append(provided)
        k.run()
        runs[f] = k
    k = runs["ptr"]
    I = k.I
    env = {}
    I.unify(hdr["self"], I.jsonable(k.tys[0]["ty"]), env)
    rows, cols = [I.cpoly(a, env) for a in hdr["targs"][1:3]]
    nonneg = [ge0(rows), ge0(cols), ge0(rows * cols)] + [ge0(sym(n)) for kk, n in im["gen"] if kk == "const"]

    def same(f, i, ty, want, label):
        k = runs.get(f)
        v = None
        if k is not None and isinstance(k.ret, Agg) and len(k.ret.fields) == 2:
            v = k.ret.fields[i]
        d = dimval(I, ty, {n: (sym(n) if kk == "const" else None) for kk, n in im["gen"]}, v)
        if d is None:
            return G(label, False, "cannot read %s" % ty, soft=UNDECIDED)
        ok = equal(d, want, Ctx(nonneg, []))
        G(label, ok, "%s = %s" % (label, show(d)) + ("" if ok else ", required %s" % show(want)), K.where_of(bodies[f]) if bodies.get(f) else wh)
    same("shape", 0, im["targs"][2], rows, "rows")
    same("shape", 1, im["targs"][3], cols, "columns")
    same("strides", 0, types["RStride"], cols, "row stride")
    same("strides", 1, types["CStride"], ONE, "column stride")
    # element pointer
    wb = K.where_of(bodies["ptr"])
    V = k.views[0]
    r = models.view(I, k.st, k.ret) if k.ret is not None else None
    if r is None:
        G("pointer", False, "not a pointer into the storage", wb, UNDECIDED)
    else:
        ok = r.arr == V.arr and equal(r.off, V.off, Ctx(nonneg, []))
        G("pointer is the first element", ok, "points to %s[%s]" % (r.arr, show(r.off)), wb)
        cx = Ctx(nonneg + [I.norm(c) for c in k.st.known], [])
        ok = cx.entails(ge0(V.n - rows * cols))
        G("all elements inside the storage", ok, "storage of %s elements, %s x %s used; returning ensures %s" % (show(V.n), show(rows), show(cols), " and ".join(show(c) for c in k.st.known) or "nothing"), wb)
        for o in I.obl:
            st, d = safety.decide(I, o, nonneg + [ge0(V.n - rows * cols)], [])
            G("accepts sufficient storage", st == HOLDS, d, wb, st)
    out += overrides(prog, nm, wh, bodies, rows, cols, env)
    # contiguity
    k = runs.get("is_contiguous")
    if k is not None:
        ok = isinstance(k.ret, B) and (k.ret.c == T or k.ret.c == neg(T))   # not claiming contiguity is always correct
        G("contiguous", ok, "reports %s" % (show(k.ret.c) if isinstance(k.ret, B) else k.ret), K.where_of(bodies["is_contiguous"]))
    k = runs.get("as_slice_unchecked")
    if k is not None:
        wb = K.where_of(bodies["as_slice_unchecked"])
        V = k.views[0]
        r = models.view(k.I, k.st, k.ret) if k.ret is not None else None
        if r is None:
            G("slice", False, "no storage view", wb, UNDECIDED)
        else:
            cx = Ctx(nonneg, [])
            ok = r.arr == V.arr and equal(r.off, V.off, cx) and equal(r.n, rows * cols, cx)
            G("slice covers the matrix", ok, "%s[%s..+%s]" % (r.arr, show(r.off), show(r.n)), wb)
        for o in k.I.obl:
            if o["kind"] == "unchecked":
                st, d = safety.decide(k.I, o, nonneg, [])
                G("slice inside the storage", st == HOLDS, d, wb, st)
    # the furthest element nalgebra reaches with this shape and these strides
    def desc(f, i, ty):
        k = runs.get(f)
        v = k.ret.fields[i] if k is not None and isinstance(k.ret, Agg) and len(k.ret.fields) == 2 else None
        return dimval(I, ty, {n: (sym(n) if kk == "const" else None) for kk, n in im["gen"]}, v)
    r_, c_, a_, b_ = desc("shape", 0, im["targs"][2]), desc("shape", 1, im["targs"][3]), desc("strides", 0, types["RStride"]), desc("strides", 1, types["CStride"])
    if None not in (r_, c_, a_, b_):
        far = (r_ - ONE) * a_ + (c_ - ONE) * b_
        if equal(far, rows * cols - ONE, Ctx(nonneg, [])):
            G("reach", True, "last element at %s" % show(far))
        else:
            names = [n for kk, n in im["gen"] if kk == "const" and n in (show(rows), show(cols))]
            bad = None
            for vals in product((1, 2, 3), repeat=len(names)):
                m = dict(zip(names, vals))
                try:
                    R, C, r, c, a, b = [pit.Ev(I, m, None).n(v, m) for v in (rows, cols, r_, c_, a_, b_)]
                except Exception:
                    bad = 0
                    break
                if r and c and (r - 1) * a + (c - 1) * b >= R * C:
                    bad = "%d x %d storage of %d elements: the described %d x %d matrix with strides (%d, %d) reaches element %d" % (R, C, R * C, r, c, a, b, (r - 1) * a + (c - 1) * b)
                    break
            if bad:
                G("reach", False, bad)
            else:
                G("reach", False, "last element at %s, storage ensures %s elements" % (show(far), show(rows * cols)), soft=UNDECIDED)
    notes = [n for k in runs.values() for n in k.I.notes if not n.startswith("uninterpreted")]
    if notes:
        for g in out:
            if g.status == VIOLATED:
                g.status, g.detail = UNDECIDED, g.detail + "; " + notes[0]
    return out
