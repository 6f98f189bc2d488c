"""Matrix containers and role buffers: every view, constructor and conversion denotes the same
row-major storage; shape queries; rejection of undersized storage."""
from .poly import *
from .poly import atom as patom
from .fm import Ctx
from .prog import last
from .interp import Interp, State, Undecided, Endless, B, Op, Ref, Sl, Arr, Agg, Opt, Unk, fz, uz
from .arrays import Q, equal, subterms
from . import pit
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED, short
from . import models
from .models import key as mkey

DATA = "RowMajorSequentialData"


def hook(I, s, c, args, fr, sp):
    """conversions of opaque storage keep the storage"""
    k = mkey(c["fn"])
    if k in (("IntoInnerData", "into_inner"), ("Into", "into"), ("From", "from")) and args:
        st = c.get("self")
        if st and st["k"] in ("param", "alias"):
            v = models.view(I, s, args[0]) if k[1] == "into" else None
            return Arr(v.arr, v.n) if v is not None else args[0]
    return NotImplemented


class Fn:
    """one function run on symbolic arguments"""

    def __init__(self, prog, b, lens=None):
        self.prog, self.b = prog, b
        self.pos = [n for k, n in b["gen"] if k == "const"]
        I = self.I = Interp(prog, pos=self.pos, hooks=[hook])
        st = self.st = State()
        self.gen = {n: (sym(n) if k == "const" else {"k": "param", "name": n, "idx": 0}) for k, n in b["gen"]}
        L = b["body"]["locals"]
        self.rty = I.ty_sub(L[0], self.gen)
        self.tys = [I.ty_sub(t, self.gen) for t in L[1:1 + b["body"]["argc"]]]
        self.args = [I.mat(st, t, "a%d" % i) for i, t in enumerate(self.tys, 1)]
        self.views = [self.view(v, t, "in%d" % i) for i, (v, t) in enumerate(zip(self.args, self.tys))]

    def view(self, v, ty, nm):
        """the storage a value denotes, or None"""
        I, st = self.I, self.st
        inner = ty["ty"] if ty["k"] in ("ref", "ptr") else ty
        if isinstance(v, (Sl, Arr)):
            return models.view(I, st, v)
        if inner["k"] == "adt" and inner["path"] in self.prog.adts:
            if not isinstance(v, Ref):
                st.mem[("o", nm)] = v
                I.otypes[nm] = inner
                v = Ref(("o", nm), ())
            n = 0
            while n < 4:                                # a reference stored behind a reference
                n += 1
                x = I.storage(st, v, I.jsonable(inner))
                if x is not None:
                    return x
                break
            return None
        if inner["k"] == "param" and not self.stores(inner["name"]):
            return None                                 # an element, not a storage
        if inner["k"] in ("param", "alias"):
            return models.view(I, st, v)
        if isinstance(v, Ref):
            return models.view(I, st, v)
        return None

    def stores(self, name):
        """does a trait bound make this type parameter a storage of elements?"""
        for p in self.b["preds"]:
            a = p["args"]
            if a and a[0].get("name") == name and last(p["trait"]) not in ("Sized", "Copy", "Clone", "Default", "PartialEq", "PartialOrd", "Eq", "Ord", "Debug", "MatrixDataType", "Float", "Send", "Sync"):
                return True
        return False

    def run(self):
        self.ret = self.I.run_body(self.st, self.b, self.gen, self.args)
        return self

    def initial(self, s, x):
        return patom(("rd", ("init", s.arr), s.off + x))

    def now(self, s, x, cx):
        return Q(self.I).read(self.st.arrs.get(s.arr, ("init", s.arr)), s.off + x, cx, top=True)


def containers(prog):
    """impl headers of the crate's own storage types"""
    return [i for i in prog.impls_of(DATA) if i["self"]["k"] == "adt"]


def names(prog):
    return {i["self"]["path"]: i for i in containers(prog)}


def where(b):
    return "%s (%s)" % (b["path"], short(b["span"]))


def base(b):
    return b["path"].replace("minikalman::", "")


def adt_of(t):
    while t["k"] in ("ref", "ptr"):
        t = t["ty"]
    return t["path"] if t["k"] == "adt" else None


def same_slice(I, a, b, cx=None):
    cx = cx or Ctx([], sorted(I.pos))
    return a.arr == b.arr and equal(a.off, b.off, cx) and equal(a.n, b.n, cx)


def methods(prog):
    """(body, impl) of every function of every impl block of a container"""
    ns = names(prog)
    out = []
    for b in prog.d["bodies"]:
        im = prog.impls.get(b.get("impl"))
        if im and b["kind"] == "AssocFn" and b.get("body"):
            p = im["self"].get("path") if im["self"]["k"] == "adt" else None
            if p in ns or p == "minikalman::matrix::data::MatrixData":
                out.append((b, im))
            elif im.get("trait") and any(adt_of(t) in ns for t in im.get("targs", [])[1:] if isinstance(t, dict) and t.get("k") in ("adt", "ref")):
                out.append((b, im))                     # conversions of a container into foreign storage
    return out


SKIP = {"fmt", "eq", "ne", "cmp", "partial_cmp", "hash", "set_at", "get_at"}


def guarded(rule, key, wh, f):
    try:
        return f()
    except Undecided as e:
        return [Goal(key, VIOLATED if isinstance(e, Endless) else UNDECIDED, wh, str(e), rule)]


def frame_ok(k, allow=()):
    """no argument storage was modified"""
    x = sym("x")
    for s in k.views:
        if s is None or s.arr in allow:
            continue
        cur = k.st.arrs.get(s.arr, ("init", s.arr))
        if cur == ("init", s.arr):
            continue
        cx = Ctx([ge0(x), ge0(s.n - 1 - x)], sorted(k.I.pos))
        if not equal(Q(k.I).read(cur, s.off + x, cx, top=True), k.initial(s, x), cx):
            return False
    return True


def altered(k, names):
    """do these storages keep their contents?  (verdict, detail)"""
    x = sym("x")
    v, det = HOLDS, ""
    for n in names:
        S = k.st.arrs.get(n, ("init", n))
        if S == ("init", n):
            continue
        L = patom(("fn", "len", n))
        facts = [ge0(x), ge0(L - 1 - x)]
        cx = Ctx(facts, sorted(k.I.pos))
        try:
            if equal(Q(k.I).read(S, x, cx, top=True), patom(("rd", ("init", n), x)), cx):
                continue
        except Undecided:
            pass
        v1 = UNDECIDED
        if not lib_notes(k):
            try:
                w = pit.separate(lambda ev, env: ev.read(S, env["x"], env), lambda ev, env: ev.data(n, env["x"]), [ge0(x), ge0(48 - x)] + [ge0(sym(p)) for p in sorted(k.I.pos)], sorted(k.I.pos), k.I, {a: P(49) for a in k.st.arrs}, pit.loop_consts(k.I))
                if w is not None:
                    v1 = VIOLATED
            except pit.NoValue:
                pass
        if v != VIOLATED:
            v, det = v1, "modifies %s" % (n,)
    return v, det


def full_len(k, s):
    """full length of the allocation a view lies in"""
    a = s.arr
    if isinstance(a, str):
        # find the array in the argument values
        for v, t in zip(k.args, k.tys):
            n = find_len(k, v, a)
            if n is not None:
                return n
        return k.I.lenof(a)
    return None


def find_len(k, v, a, depth=0):
    I, st = k.I, k.st
    if depth > 8:
        return None
    if isinstance(v, (Arr, Sl)) and v.arr == a:
        return v.n
    if isinstance(v, Ref):
        return find_len(k, I.load(st, v.root, v.path), a, depth + 1)
    if isinstance(v, Op):
        x = I.expand_op(st, v)
        return find_len(k, x, a, depth + 1) if x is not None else None
    if isinstance(v, Agg):
        for f in v.fields:
            n = find_len(k, f, a, depth + 1)
            if n is not None:
                return n
    return None


def lib_notes(k):
    return [n for n in k.I.notes if not n.startswith("uninterpreted")]


def check_views(prog):
    """P16"""
    rule = "every view, constructor and conversion of a container denotes the same whole storage, unchanged"
    out = []
    ns = names(prog)
    for b, im in methods(prog):
        if b["name"] in SKIP or "RawStorage" in im.get("trait", "") or "IsContiguous" in im.get("trait", ""):
            continue
        ky, wh = base(b), where(b)
        if im.get("trait"):
            ky = "%s as %s::%s" % (tyname(im["self"]), last(im["trait"]), b["name"])
            ky += disc(im)
        out += guarded(rule, ky, wh, lambda: view_goals(prog, b, im, ns, ky, wh, rule))
    return out


def disc(im):
    """distinguish several impls of one trait (From<..>)"""
    ta = im.get("targs", [])[1:]
    if last(im["trait"]) == "From" and ta:
        return "<%s>" % tyname(ta[0]) + (" for %s" % tyname(im["self"]["args"][-1]) if im["self"].get("args") else "")
    return ""


def tyname(t):
    k = t["k"]
    if k == "adt":
        return last(t["path"])
    if k == "ref":
        return "&%s%s" % ("mut " if t.get("mut") else "", tyname(t["ty"]))
    if k == "slice":
        return "[]"
    if k == "array":
        return "[;]"
    if k in ("param", "cparam"):
        return t["name"]
    return k


def view_goals(prog, b, im, ns, ky, wh, rule):
    k = Fn(prog, b)
    I = k.I
    selfp = k.tys and adt_of(k.tys[0]) == (im["self"].get("path") if im["self"]["k"] == "adt" and im["self"]["path"] in ns or not im.get("trait") else adt_of(k.tys[0]) if adt_of(k.tys[0]) in ns else "")
    rt = k.rty
    rp = adt_of(rt)
    V = k.views[0] if selfp else None
    pos = sorted(I.pos)
    G = lambda ok, detail, st=VIOLATED: [Goal(ky, HOLDS if ok else st, wh, detail, rule)]
    if selfp and V is None:
        return G(False, "no storage view of %s" % tyname(k.tys[0]), UNDECIDED)
    k.run()
    if k.ret is None:
        return G(False, "never returns")
    soft = UNDECIDED if lib_notes(k) else VIOLATED
    if selfp:
        if not frame_ok(k):
            v, det = altered(k, [s.arr for s in k.views if s is not None])
            return G(False, det or "modifies the storage", v if v != HOLDS else UNDECIDED)
        if rt["k"] == "ref":
            to = rt["ty"]
            usz = [i for i, t in enumerate(k.tys) if t["k"] == "prim" and t["name"] == "usize"]
            if usz and isinstance(k.ret, Ref):
                want = V.off + I.as_poly(k.args[usz[0]])
                got = k.ret
                ok = got.root == ("arr", V.arr) and len(got.path) == 1 and equal(got.path[0][1], want, Ctx([], pos))
                return G(ok, "element %s of the storage" % show(k.args[usz[0]]) if ok else "refers to %s, required element %s of the storage" % (got, show(want)), soft)
            r = k.view(k.ret, rt, "ret")
            if r is None:
                return G(False, "result has no storage view", UNDECIDED)
            if to["k"] == "slice" and b["name"] == "as_slice" or b["name"] == "as_mut_slice":
                fl = full_len(k, V)
                if fl is None or not (equal(V.off, ZERO, Ctx([], pos)) and equal(V.n, fl, Ctx([], pos))):
                    return G(False, "as_slice covers %s..+%s of a storage of %s elements" % (show(V.off), show(V.n), show(fl) if fl is not None else "?"), soft)
            ok = same_slice(I, r, V)
            return G(ok, "same storage" if ok else "denotes %s[%s..+%s], the container's storage is %s[%s..+%s]" % (r.arr, show(r.off), show(r.n), V.arr, show(V.off), show(V.n)), soft)
        if rt["k"] == "prim":
            return []                                    # shape queries: P15
        if rp in ns or b["name"] == "into_inner" or isinstance(k.ret, (Arr, Sl)):
            return moved(k, V, ky, wh, rule, soft)
        return []
    # constructors
    if rp in ns or (rt["k"] in ("param", "alias") and im["self"].get("path") in ns):
        src = [v for v in k.views if v is not None]
        if len(src) == 1:
            return moved(k, src[0], ky, wh, rule, soft)
        r = k.view(k.ret, rt, "ret")
        if r is None:
            return G(False, "result has no storage view", UNDECIDED)
        if not src:
            hdr = ns[rp]
            env = {}
            I.unify(hdr["self"], I.jsonable(rt), env)
            dims = [I.cpoly(a, env) for a in hdr["targs"][1:3]]
            n = dims[0] * dims[1]
            x = sym("x")
            cx = Ctx([ge0(x), ge0(n - 1 - x)], pos)
            if not equal(r.n, n, Ctx([], pos)):
                return G(False, "storage of %s elements for %s x %s" % (show(r.n), show(dims[0]), show(dims[1])), soft)
            if n == ZERO:
                return G(True, "empty storage")
            init = [a for a, t in zip(k.args, k.tys) if t["k"] in ("param",)]
            got = k.now(r, x, cx)
            want = I.as_poly(init[0]) if len(init) == 1 else None
            if want is None:
                return G(False, "no initial value", UNDECIDED)
            return G(equal(got, want, cx), "every element is %s" % show(got), soft)
        return G(False, "constructor with %d storages" % len(src), UNDECIDED)
    return []


def moved(k, V, ky, wh, rule, soft):
    """the result holds the same elements as V did"""
    I = k.I
    r = k.view(k.ret, k.rty, "ret")
    if r is None:
        return [Goal(ky, UNDECIDED, wh, "result has no storage view", rule)]
    pos = sorted(I.pos)
    if not equal(r.n, V.n, Ctx([], pos)):
        return [Goal(ky, soft, wh, "result holds %s elements, the argument %s" % (show(r.n), show(V.n)), rule)]
    x = sym("x")
    cx = Ctx([ge0(x), ge0(V.n - 1 - x)], pos)
    got = k.now(r, x, cx)
    vd = pit.verdict(got, k.initial(V, x), cx, soft, k.I)
    ok = vd == HOLDS
    byref = k.rty["k"] == "adt" and any(t["k"] == "ref" and t.get("mut") for t in k.tys)
    if ok and byref and isinstance(r.arr, tuple):
        ok, vd = False, soft
    return [Goal(ky, vd, wh, "same elements" if ok else "element x is %s, required %s" % (show(got)[:200], show(k.initial(V, x))), rule)]


# ------------------------------------------------------------------ shape queries
def check_shape(prog):
    """P15"""
    rule = "shape queries return the declared dimensions"
    out = []
    ns = names(prog)
    todo = []
    for b, im in methods(prog):
        if b["name"] in ("len", "is_empty", "is_valid", "buffer_len", "rows", "cols"):
            todo.append((b, im, im["self"].get("path")))
    for t in prog.d["traits"]:
        if last(t["path"]) in (DATA, "Matrix"):
            for it in t["items"]:
                if it["default"] and it["name"] in ("len", "is_empty", "is_valid", "buffer_len", "rows", "cols"):
                    todo.append((prog.bodies[it["sp"]], None, None))
    for b, im, p in todo:
        ky, wh = base(b), where(b)
        if im is not None:
            ky = "%s%s::%s" % (last(p or "?"), " as " + last(im["trait"]) if im.get("trait") else "", b["name"])
        out += guarded(rule, ky, wh, lambda: shape_goal(prog, b, p, ns, ky, wh, rule))
    return out + check_counts(prog)


def shape_goal(prog, b, p, ns, ky, wh, rule):
    k = Fn(prog, b)
    I = k.I
    I.pos = set()                # zero dimensions included
    V = k.views[0] if k.views else None
    if p is None:
        cs = [sym(n) for kk, n in b["gen"] if kk == "const"][:2]
    else:
        env = {}
        I.unify(ns[p]["self"], I.jsonable(k.tys[0]["ty"] if k.tys[0]["k"] == "ref" else k.tys[0]), env)
        cs = [I.cpoly(a, env) for a in ns[p]["targs"][1:3]]
    k.run()
    r, n = k.ret, cs[0] * cs[1]
    if r is None:
        return [Goal(ky, VIOLATED, wh, "never returns", rule)]
    nonneg = [ge0(c) for c in cs] + [ge0(n)]
    nm = b["name"]
    soft = UNDECIDED if lib_notes(k) else VIOLATED

    def eq(want):
        got = Q(I).resolve(I.as_poly(r), Ctx(nonneg, []))
        vd = pit.verdict(got, want, Ctx(nonneg, []), soft, I)
        ok = vd == HOLDS
        return [Goal(ky, vd, wh, "%s = %s" % (nm, show(got)) + ("" if ok else ", required " + show(want)), rule)]

    def iff(pos, neg_):
        if not isinstance(r, B):
            return [Goal(ky, UNDECIDED, wh, "not a truth value", rule)]
        c = I.norm(r.c)
        bad = []
        if not Ctx(nonneg + pos + [neg(c)], []).infeasible():
            bad.append("can be false when required true")
        for nn in neg_:
            if not Ctx(nonneg + nn + [c], []).infeasible():
                bad.append("can be true when required false")
        if bad and has_opaque(c):
            return [Goal(ky, UNDECIDED, wh, cshow(c), rule)]
        if bad and nm == "is_empty" and zero_test(c, cs):
            bad = []
        return [Goal(ky, soft if bad else HOLDS, wh, "%s <=> %s; %s" % (nm, cshow(c), "; ".join(bad)), rule)]
    if nm == "len":
        return eq(n)
    if nm == "rows":
        return eq(cs[0])
    if nm == "cols":
        return eq(cs[1])
    if nm == "buffer_len":
        return eq(V.n)
    if nm == "is_valid":
        return iff([ge0(V.n - n)], [[ge0(n - V.n - 1)]])
    z = [c for c in cs if c.const() is None]
    if nm == "is_empty":
        # cases: some dimension zero / all at least one
        if not isinstance(r, B):
            return [Goal(ky, UNDECIDED, wh, "not a truth value", rule)]
        c = I.norm(r.c)
        bad = []
        for v in z:
            m = {as_atom(v)[1]: ZERO}
            cz = subst(c, m)
            if not Ctx([neg(cz)] + [ge0(subst(w, m)) for w in cs], []).infeasible() and cz != T:
                bad.append("can be false for %s = 0" % show(v))
        pos = [as_atom(v)[1] for v in z]
        if not Ctx([c], pos).infeasible() and c != F:
            m = {p_: ONE + sym(p_ + "'") for p_ in pos}
            if not Ctx([subst(c, m)] + [ge0(sym(p_ + "'")) for p_ in pos] + [ge0(sym(p_ + "'") * sym(q_ + "'")) for p_ in pos for q_ in pos], []).infeasible():
                bad.append("can be true for a non-empty matrix")
        return [Goal(ky, soft if bad else HOLDS, wh, "is_empty <=> %s; %s" % (cshow(c), "; ".join(bad)), rule)]
    return []


def has_opaque(c):
    return "call:" in cshow(c)


def cshow(c):
    try:
        return show(c)[:200]
    except Exception:
        return str(c)[:200]


def zero_test(c, cs):
    return False


COUNTS = {"states": "KalmanFilterNumStates", "controls": "KalmanFilterNumControls", "measurements": None, "observations": None}


def check_counts(prog):
    """states()/controls()/observations() return the dimension of the filter, control or observation"""
    rule = "dimension queries return the declared dimension"
    out = []
    # trait default methods: the trait's own constant
    for t in prog.d["traits"]:
        if last(t["path"]).startswith("KalmanFilterNum"):
            for it in t["items"]:
                if not it["default"]:
                    continue
                b = prog.bodies[it["sp"]]
                cs = [n for kk, n in b["gen"] if kk == "const"]
                if len(cs) == 1:
                    out += guarded(rule, base(b), where(b), lambda: count_goal(prog, b, sym(cs[0]), rule))
    # roles of the filter types: the number declared by the trait implementation
    decl = {}
    for i in prog.d["impls"]:
        if "trait" in i and last(i["trait"]).startswith("KalmanFilterNum") and i["self"]["k"] == "adt":
            decl.setdefault(i["self"]["path"], {})[last(i["trait"])] = i
    for p, tr in decl.items():
        for b, im in prog.inherent(last(p)):
            if b["name"] in ("states", "controls", "measurements", "observations") and b["body"]["argc"] == 1:
                want = [t for t in tr if t[len("KalmanFilterNum"):].lower() in (b["name"], {"measurements": "observations", "observations": "measurements"}.get(b["name"]))]
                if not want:
                    out.append(Goal(base(b), UNDECIDED, where(b), "no matching dimension trait", rule))
                    continue
                hdr = tr[want[0]]
                I = Interp(prog)
                env = {}
                I.unify(hdr["self"], im["self"], env)
                out += guarded(rule, base(b), where(b), lambda: count_goal(prog, b, I.cpoly(hdr["targs"][1], env), rule))
        for tn, hdr in tr.items():
            for it in hdr["items"]:
                b = prog.bodies.get(it["sp"])
                if b and b.get("body"):
                    out += guarded(rule, base(b), where(b), lambda: count_goal(prog, b, Interp(prog).cpoly(hdr["targs"][1], {}), rule))
    return out


def count_goal(prog, b, want, rule):
    k = Fn(prog, b)
    k.I.pos = set()              # zero included
    k.run()
    got = k.I.as_poly(k.ret)
    return [Goal(base(b), pit.verdict(got, want, Ctx([], []), VIOLATED, k.I), where(b), "returns %s, required %s" % (show(got), show(want)), rule)]


# ------------------------------------------------------------------ undersized storage
def check_reject(prog, must):
    """P17.  must: set of classes {"slice", "owned"} rejected in this configuration"""
    rule = "storage smaller than the declared shape is rejected, sufficient storage is accepted"
    out = []
    ns = names(prog)
    for b, im in methods(prog):
        k0 = None
        ky, wh = base(b), where(b)
        if im.get("trait"):
            ky = "%s as %s::%s%s" % (tyname(im["self"]), last(im["trait"]), b["name"], disc(im))

        def go():
            k = Fn(prog, b)
            rp = adt_of(k.rty)
            if rp not in ns or len(k.tys) != 1 or adt_of(k.tys[0]) in ns:
                return []
            V = k.views[0]
            if V is None:
                return []
            role = rp.startswith("minikalman::buffers::")
            arg = k.tys[0]["ty"] if k.tys[0]["k"] == "ref" else k.tys[0]
            if role and arg["k"] not in ("slice", "array"):
                cls = None
            elif role:
                cls = "slice"
            elif last(rp) in ("MatrixDataArray", "MatrixDataBoxed") and b["name"] != "new_unchecked" and not (im["self"]["path"].endswith("::MatrixData") and b["name"] == "new_array"):
                cls = "owned"
            else:
                cls = None
            env = {}
            I = k.I
            I.pos = set()
            I.unify(ns[rp]["self"], I.jsonable(k.rty), env)
            dims = [I.cpoly(a, env) for a in ns[rp]["targs"][1:3]]
            n = dims[0] * dims[1]
            k.run()
            pans = [o for o in I.obl if o["kind"] == "panic" or o["kind"].startswith("assert")]
            nonneg = [ge0(V.n), ge0(n)] + [ge0(d) for d in dims]
            if arg["k"] == "array":
                nonneg.append(eq0(V.n - I.cpoly(arg["len"], k.gen)))

            def conds(o):
                cs = [I.norm(c) for c in o["conds"]]
                cs.append(neg(I.norm(o["goal"])))
                return cs
            g = []
            if cls in must:
                for word, wrong in (("small", ge0(n - V.n - 1)), ("large", ge0(V.n - n - 1))):
                    if word == "large" and cls != "owned" or Ctx(nonneg + [wrong], []).infeasible():
                        continue
                    # a panic happens whenever the storage is too small / too large
                    hit = k.ret is None or any(all(Ctx(nonneg + [wrong, neg(c)], []).infeasible() for c in conds(o)) for o in pans)
                    soft = UNDECIDED if lib_notes(k) else VIOLATED
                    g.append(Goal(ky + ": too " + word, HOLDS if hit else soft, wh, "%s elements for %s x %s: %s" % (show(V.n), show(dims[0]), show(dims[1]), "rejected" if hit else "accepted"), rule))
            exact = nonneg + [eq0(V.n - n)]
            big = nonneg if not must else exact if cls == "owned" else nonneg + [ge0(V.n - n)]
            bad = [o for o in pans if not Ctx(big + conds(o), []).infeasible()]
            und = lib_notes(k)
            g.append(Goal(ky + (": sufficient" if must else ": unchecked"), VIOLATED if bad and not und else UNDECIDED if bad else HOLDS, wh, "rejected at " + bad[0]["span"] if bad else "accepted", rule))
            return g
        out += guarded(rule, ky, wh, go)
    return out
