"""Element-level specification of the matrix kernels (the default methods of the matrix
traits and every implementation that overrides them)."""
from .poly import *
from .poly import atom as patom
from .fm import Ctx
from .prog import last
from .interp import Interp, State, Undecided, Endless, B, Op, Ref, Sl, Arr, Unk, fz
from .arrays import Q, canon, equal, deep_has, rfn, subterms
from . import pit
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED, short

R, C, U, N = sym("R"), sym("C"), sym("U"), sym("N")
r, c = sym("r"), sym("c")
POS = ["R", "C", "U", "N"]


def rng(v, n):
    return [ge0(v), ge0(n - 1 - v)]


class K:
    """one analysed kernel body"""

    def __init__(self, prog, b, imp, trait, exact=False, square=False, hooks=None):
        self.prog, self.b = prog, b
        I = self.I = Interp(prog, pos=POS, hooks=hooks)
        st = self.st = State()
        gen = {}
        self.facts = []
        if square:
            dims = [N, N, U]
        else:
            dims = [R, C, U]
        if imp is None:
            consts = [n for k, n in b["gen"] if k == "const"]
            if trait in ("SquareMatrix", "SquareMatrixMut"):
                d = [N, U]
            elif trait in ("RowVector", "RowVectorMut"):
                d = [R, U]
            elif trait in ("ColumnVector", "ColumnVectorMut"):
                d = [C, U]
            elif trait in ("Scalar", "ScalarMut"):
                d = [U]
            else:
                d = dims
            for n, s in zip(consts, d):
                gen[n] = s
        else:
            # implementation for a concrete type: dimensions through the trait arguments
            d = {"SquareMatrix": [N], "SquareMatrixMut": [N], "RowVector": [R], "RowVectorMut": [R], "ColumnVector": [C], "ColumnVectorMut": [C], "Scalar": [], "ScalarMut": []}.get(trait, dims[:2])
            cargs = [a for a in imp["targs"][1:] if a["k"] in ("cparam", "cval")]
            for a, s in zip(cargs, d):
                if a["k"] == "cparam":
                    gen[a["name"]] = s
                else:
                    raise Undecided("implementation for fixed dimensions")
            own = b["gen"][len(imp["gen"]):]
            for k, n in own:
                if k == "const" and n not in gen:
                    gen[n] = U
            for k, n in imp["gen"]:
                if k == "const" and n not in gen:
                    gen[n] = sym(n)
                    self.facts.append(ge0(sym(n) - d[0] * (d[1] if len(d) > 1 else (d[0] if trait.startswith("Sq") else ONE))))
        for k, n in b["gen"]:
            if k != "const":
                gen[n] = {"k": "param", "name": n, "idx": 0}
        self.gen = gen
        self.tys = [I.ty_sub(t, gen) for t in b["body"]["locals"][1:1 + b["body"]["argc"]]]
        self.lens_exact = exact
        self.args = [I.mat(st, t, "a%d" % i) for i, t in enumerate(self.tys, 1)]
        self.arr = {}
        for i, (v, t) in enumerate(zip(self.args, self.tys), 1):
            s = self.slice_of(v, t)
            if s is not None:
                self.arr[i] = s

    def slice_of(self, v, t):
        """the element storage behind a matrix or slice argument"""
        from . import models
        I, st = self.I, self.st
        inner = t["ty"] if t["k"] in ("ref", "ptr") else t
        if isinstance(v, Sl):
            return v
        if inner["k"] == "adt":
            return I.storage(st, v, inner)
        if isinstance(v, Ref) and inner["k"] in ("param", "alias"):
            if inner["k"] == "param" and inner["name"] in ("F", "O"):
                return None
            return models.view(I, st, v)
        return None

    def run(self):
        if self.lens_exact is not None and self.lens_exact:
            for i, n in self.lens_exact.items():
                if i in self.arr:
                    self.I.lens[self.arr[i].arr] = n
            self.args = [self.I.mat(self.st, t, "a%d" % i) for i, t in enumerate(self.tys, 1)]
        self.ret = self.I.run_body(self.st, self.b, self.gen, self.args)
        return self

    def state(self, i):
        a = self.arr[i].arr
        return self.st.arrs.get(a, ("init", a))

    def e0(self, i, idx):
        s = self.arr[i]
        return patom(("rd", ("init", s.arr), s.off + idx))

    def lenmap(self, lens):
        """required element counts of the storages whose length is not fixed"""
        out = {}
        for i, s in self.arr.items():
            a = as_atom(s.n)
            if a and a[0] == "fn" and a[1] == "len":
                out[a[2]] = (lens or {}).get(i, ONE * 4)
        return out

    def val(self, i):
        return self.I.as_poly(self.args[i - 1])


def reads(p, arr):
    """does the value read the initial contents of an array?"""
    return any(a[0] == "rd" and a[1] == ("init", arr) for a in subterms(p))


def check_fresh(prog):
    """operations that overwrite their target do not read its previous contents"""
    out = []
    for g in check_group(prog, "products") + check_group(prog, "elementwise"):
        if not hasattr(g, "stale"):
            if g.status == UNDECIDED:
                out.append(g)
            continue
        s = g.status if g.status == UNDECIDED else VIOLATED if g.stale and g.status == VIOLATED else HOLDS
        out.append(Goal(g.key + ": target overwritten", s, g.where, g.detail, "overwriting operations do not read their target"))
    return out


def check_frames(prog):
    return [g for g in check_group(prog, "products") + check_group(prog, "elementwise") if g.key.endswith("unchanged") or g.status == UNDECIDED]


def bad_atoms(p):
    out = []
    for a in subterms(p):
        if a[0] == "fn" and isinstance(a[1], str) and (a[1].startswith("call:") or a[1] in ("unknown", "carry", "not", "const") or a[1].startswith("op")):
            out.append(show(a)[:80])
    return out


def bad_in(c):
    """unmodelled values inside a condition"""
    out = []
    for a in subterms(c):
        if a[0] == "fn" and isinstance(a[1], str) and (a[1].startswith("call:") or a[1] in ("unknown", "carry", "not", "const") or a[1].startswith("op")):
            out.append(show(a)[:80])
    if deep_has(c, lambda x: isinstance(x, tuple) and len(x) == 2 and x[0] == "b" and x[1] == "?"):
        out.append("unknown truth value")
    return out


def where_of(b):
    return "%s (%s)" % (b["path"].replace("minikalman::", ""), short(b["span"]))


def settle(k, key, got, want, cx, facts, where, rule, read=None, lens=None, why=None, data=None, judge=None):
    """equal normal forms prove the goal; a difference is only reported with a separating valuation"""
    if got is not None and equal(got, want, cx):
        return Goal(key, HOLDS, where, "= " + show(want)[:160], rule)
    shown = "element value is %s, required %s" % (show(canon(got, cx))[:240], show(canon(want, cx))[:160]) if got is not None else why
    hard = [n for n in k.I.notes if not n.startswith("uninterpreted")]
    if hard:
        return Goal(key, UNDECIDED, where, "unmodelled construct: %s" % hard[0], rule)
    try:
        w = pit.separate(read or got, judge or want, facts, POS, k.I, k.lenmap(lens), pit.loop_consts(k.I), data)
    except pit.NoValue as e:
        return Goal(key, UNDECIDED, where, "%s (no valuation: %s)" % (shown, e), rule)
    if w is None:
        return Goal(key, UNDECIDED, where, "%s (not separated)" % shown, rule)
    return Goal(key, VIOLATED, where, "%s; %s" % (pit.witness(w), shown), rule)


def close(I, key, got, want, cx, facts, where, rule, pos=POS, ok=""):
    """the same for terms without array states"""
    if equal(got, want, cx):
        return Goal(key, HOLDS, where, ok, rule)
    shown = "%s, required %s" % (show(canon(got, cx))[:240], show(canon(want, cx))[:160])
    try:
        w = pit.separate(got, want, facts, pos, I)
    except pit.NoValue as e:
        return Goal(key, UNDECIDED, where, "%s (no valuation: %s)" % (shown, e), rule)
    if w is None:
        return Goal(key, UNDECIDED, where, "%s (not separated)" % shown, rule)
    return Goal(key, VIOLATED, where, "%s; %s" % (pit.witness(w), shown), rule)


# each spec: (trait, method) -> dict(out={argpos}, goals=function(K)->[(label, argpos, index, facts, expected)],
#            lens={argpos: length}, ret=function(K)->[(label, facts, expected)])
SPECS = {}


def spec(trait, method, **kw):
    def d(f):
        SPECS[(trait, method)] = dict(goals=f, **kw)
        return f
    return d


RC = rng(r, R) + rng(c, C)
RU = rng(r, R) + rng(c, U)


def S(v, n, f):
    return mk_sum(v, n, f(sym(v)))


@spec("Matrix", "mult", out=[3], lens={1: R * C, 2: C * U, 3: R * U})
def _(k):
    return [("C=A*B", 3, r * U + c, RU, S("k", C, lambda x: k.e0(1, r * C + x) * k.e0(2, x * U + c)))]


@spec("Matrix", "mult_buffered", out=[3, 4], lens={1: R * C, 2: C * U, 3: R * U, 4: C})
def _(k):
    return [("C=A*B", 3, r * U + c, RU, S("k", C, lambda x: k.e0(1, r * C + x) * k.e0(2, x * U + c)))]


@spec("Matrix", "mult_rowvector", out=[3], lens={1: R * C, 2: C, 3: R})
def _(k):
    return [("c=A*x", 3, r, rng(r, R), S("k", C, lambda x: k.e0(1, r * C + x) * k.e0(2, x)))]


@spec("Matrix", "multadd_rowvector", out=[3], lens={1: R * C, 2: C, 3: R})
def _(k):
    return [("c=c+A*x", 3, r, rng(r, R), k.e0(3, r) + S("k", C, lambda x: k.e0(1, r * C + x) * k.e0(2, x)))]


@spec("Matrix", "mult_transb", out=[3], lens={1: R * C, 2: U * C, 3: R * U})
def _(k):
    return [("C=A*B'", 3, r * U + c, RU, S("k", C, lambda x: k.e0(1, r * C + x) * k.e0(2, c * C + x)))]


@spec("Matrix", "multadd_transb", out=[3], lens={1: R * C, 2: U * C, 3: R * U})
def _(k):
    return [("C=C+A*B'", 3, r * U + c, RU, k.e0(3, r * U + c) + S("k", C, lambda x: k.e0(1, r * C + x) * k.e0(2, c * C + x)))]


@spec("Matrix", "multscale_transb", out=[4], lens={1: R * C, 2: U * C, 4: R * U})
def _(k):
    return [("C=A*B'*scale", 4, r * U + c, RU, k.val(3) * S("k", C, lambda x: k.e0(1, r * C + x) * k.e0(2, c * C + x)))]


def elementwise(trait, method, out, f, label):
    @spec(trait, method, out=[out], lens={1: R * C, 2: R * C, 3: R * C})
    def g(k):
        e = r * C + c
        return [(label, out, e, RC, f(k, e))]


elementwise("Matrix", "sub", 3, lambda k, e: k.e0(1, e) - k.e0(2, e), "C=A-B")
elementwise("Matrix", "add_inplace_b", 2, lambda k, e: k.e0(1, e) + k.e0(2, e), "B=A+B")
elementwise("Matrix", "sub_inplace_b", 2, lambda k, e: k.e0(1, e) - k.e0(2, e), "B=A-B")
elementwise("MatrixMut", "add_inplace_a", 1, lambda k, e: k.e0(1, e) + k.e0(2, e), "A=A+B")
elementwise("MatrixMut", "sub_inplace_a", 1, lambda k, e: k.e0(1, e) - k.e0(2, e), "A=A-B")
elementwise("Matrix", "copy", 2, lambda k, e: k.e0(1, e), "target=self")
elementwise("Matrix", "copy_to", 2, lambda k, e: k.e0(1, e), "target=self")
elementwise("Matrix", "copy_from", 1, lambda k, e: k.e0(2, e), "self=source")


@spec("Matrix", "get_column_copy", out=[3], lens={1: R * C, 3: R})
def _(k):
    j = k.val(2)
    return [("out[r]=A[r,j]", 3, r, rng(r, R) + rng(j, C), k.e0(1, r * C + j))]


@spec("Matrix", "get_row_copy", out=[3], lens={1: R * C, 3: C})
def _(k):
    i = k.val(2)
    return [("out[c]=A[i,c]", 3, c, rng(c, C) + rng(i, R), k.e0(1, i * C + c))]


def getter(trait, method, e, facts):
    @spec(trait, method, out=[], lens={1: R * C})
    def g(k):
        return [("value", "ret", None, facts(k), k.e0(1, e(k)))]


getter("Matrix", "get", lambda k: k.val(2) * C + k.val(3), lambda k: rng(k.val(2), R) + rng(k.val(3), C))
getter("RowMajorSequentialData", "get_at", lambda k: k.val(2) * C + k.val(3), lambda k: rng(k.val(2), R) + rng(k.val(3), C))
getter("Scalar", "get_value", lambda k: ZERO, lambda k: [])
getter("RowVector", "get_row", lambda k: k.val(2), lambda k: rng(k.val(2), R))
getter("ColumnVector", "get_col", lambda k: k.val(2), lambda k: rng(k.val(2), C))


def setter(trait, method, row, col, val, nr, nc):
    @spec(trait, method, out=[1], lens={1: nr * nc})
    def g(k):
        i, j, v = row(k), col(k), val(k)
        inr = rng(i, nr) + rng(j, nc) + rng(r, nr) + rng(c, nc)
        e = r * nc + c
        out = [("target cell", 1, i * nc + j, rng(i, nr) + rng(j, nc), v)]
        for nm, f in (("other row above", [ge0(i - r - 1)]), ("other row below", [ge0(r - i - 1)]), ("other column left", [ge0(j - c - 1)]), ("other column right", [ge0(c - j - 1)])):
            if Ctx(inr + f, POS).infeasible():
                continue
            out.append((nm, 1, e, inr + f, k.e0(1, e)))
        return out


setter("MatrixMut", "set", lambda k: k.val(2), lambda k: k.val(3), lambda k: k.val(4), R, C)
setter("RowMajorSequentialDataMut", "set_at", lambda k: k.val(2), lambda k: k.val(3), lambda k: k.val(4), R, C)
setter("ScalarMut", "set_value", lambda k: ZERO, lambda k: ZERO, lambda k: k.val(2), ONE, ONE)
setter("RowVectorMut", "set_row", lambda k: k.val(2), lambda k: ZERO, lambda k: k.val(3), R, ONE)
setter("ColumnVectorMut", "set_col", lambda k: ZERO, lambda k: k.val(2), lambda k: k.val(3), ONE, C)


@spec("MatrixMut", "set_symmetric", out=[1], lens={1: N * N}, square=True)
def _(k):
    i, j, v = k.val(2), k.val(3), k.val(4)
    inr = rng(i, N) + rng(j, N) + rng(r, N) + rng(c, N)
    e = r * N + c
    out = [("cell", 1, i * N + j, inr, v), ("mirrored cell", 1, j * N + i, inr, v)]
    for a, f in (("r<i", [ge0(i - r - 1)]), ("r>i", [ge0(r - i - 1)]), ("c<j", [ge0(j - c - 1)]), ("c>j", [ge0(c - j - 1)])):
        for b_, g in (("r<j", [ge0(j - r - 1)]), ("r>j", [ge0(r - j - 1)]), ("c<i", [ge0(i - c - 1)]), ("c>i", [ge0(c - i - 1)])):
            if not Ctx(inr + f + g, POS).infeasible():
                out.append(("other %s,%s" % (a, b_), 1, e, inr + f + g, k.e0(1, e)))
    return out


def filler(trait, method, v, nr, nc, rr):
    @spec(trait, method, out=[1], lens={1: nr * nc})
    def g(k):
        return [("every cell", 1, r * nc + c, rr, v(k))]


filler("MatrixMut", "set_all", lambda k: k.val(2), R, C, RC)
filler("MatrixMut", "clear", lambda k: ZERO, R, C, RC)
filler("MatrixMut", "set_zero", lambda k: ZERO, R, C, RC)

NN = rng(r, N) + rng(c, N)


def diagonal(method, d, off):
    @spec("SquareMatrixMut", method, out=[1], lens={1: N * N})
    def g(k):
        e = r * N + c
        o = off(k) if off else k.e0(1, e)
        return [("diagonal", 1, r * N + r, rng(r, N), d(k)), ("below diagonal", 1, e, NN + [ge0(r - c - 1)], o), ("above diagonal", 1, e, NN + [ge0(c - r - 1)], o)]


diagonal("make_identity", lambda k: ONE, lambda k: ZERO)
diagonal("make_scalar", lambda k: k.val(2), lambda k: ZERO)
diagonal("make_comatrix", lambda k: k.val(2), lambda k: k.val(3))
diagonal("set_diagonal_to_scalar", lambda k: k.val(2), None)

GROUPS = {
    "products": ["mult", "mult_buffered", "mult_rowvector", "multadd_rowvector", "mult_transb", "multadd_transb", "multscale_transb"],
    "elementwise": ["sub", "add_inplace_b", "sub_inplace_b", "add_inplace_a", "sub_inplace_a", "copy", "copy_to", "copy_from", "get_column_copy", "get_row_copy"],
    "access": ["get", "get_at", "get_value", "get_row", "get_col", "set", "set_at", "set_value", "set_row", "set_col", "set_symmetric", "set_all", "clear", "set_zero", "make_identity", "make_scalar", "make_comatrix", "set_diagonal_to_scalar"],
}

LAYOUT = [("RowMajorSequentialData", "len"), ("RowMajorSequentialData", "buffer_len"), ("RowMajorSequentialData", "is_empty"), ("RowMajorSequentialData", "is_valid"), ("Matrix", "rows"), ("Matrix", "cols")]


def bodies(prog, trait, method):
    """(body, impl|None) of the default and of every override"""
    out = []
    for t in prog.d["traits"]:
        if last(t["path"]) == trait:
            for it in t["items"]:
                if it["name"] == method and it["default"]:
                    out.append((prog.bodies[it["sp"]], None))
    out += prog.trait_methods(trait, method)
    return out


def facts_for(k, lens):
    fs = list(k.facts)
    for i, n in (lens or {}).items():
        if i in k.arr:
            fs.append(ge0(k.arr[i].n - n))
    return fs


def check_method(prog, trait, method, want_frame=True):
    """goals for one kernel; every body"""
    sp = SPECS[(trait, method)]
    bs = bodies(prog, trait, method)
    rule = "element summary of %s::%s equals its definition" % (trait, method)
    if not bs:
        return [Goal("%s::%s:missing" % (trait, method), VIOLATED, "minikalman", "kernel %s::%s has no analysable body" % (trait, method), rule)]
    out = []
    for b, imp in bs:
        where = "%s (%s)" % (b["path"], short(b["span"]))
        base = b["path"].replace("minikalman::", "")
        try:
            gs = run_goals(prog, b, imp, trait, sp, base, where, rule, False, want_frame)
            if any(g.status != HOLDS for g in gs):
                # buffers of exactly the required size
                try:
                    gs2 = run_goals(prog, b, imp, trait, sp, base, where, rule, True, want_frame)
                    if all(g.status == HOLDS for g in gs2):
                        gs = gs2
                except Undecided:
                    pass
            out += gs
        except Undecided as e:
            try:
                out += run_goals(prog, b, imp, trait, sp, base, where, rule, True, want_frame)
            except Undecided as e2:
                out.append(Goal(base, unfinished(e2), where, str(e2), rule))
    return out


def unfinished(e):
    """a body shown not to return computes nothing"""
    return VIOLATED if isinstance(e, Endless) else UNDECIDED


def run_goals(prog, b, imp, trait, sp, base, where, rule, exact, want_frame):
    k = K(prog, b, imp, trait, exact=sp["lens"] if exact else None, square=sp.get("square", False)).run()
    gl = sp["goals"](k)
    fs = facts_for(k, sp["lens"])
    out = []
    for label, arr, idx, facts, want in gl:
        cx = Ctx(fs + facts, POS)
        key = "%s: %s" % (base, label)
        if k.ret is None:
            out.append(Goal(key, VIOLATED, where, "never returns", rule))
            continue
        got = why = read = None
        try:
            if arr == "ret":
                if isinstance(k.ret, Unk):
                    raise Undecided(k.ret.why)
                got = Q(k.I).resolve(k.I.as_poly(k.ret), cx)
            else:
                read = lambda ev, env, S_=k.state(arr), e_=k.arr[arr].off + idx: ev.read(S_, ev.n(e_, env), env)
                got = Q(k.I).read(k.state(arr), k.arr[arr].off + idx, cx, top=True)
        except Undecided as e:
            if read is None:
                raise
            why = str(e)
        g = settle(k, key, got, want, cx, fs + facts, where, rule, read, None if exact else sp["lens"], why)
        stale = got is not None and arr != "ret" and arr in sp["out"] and reads(got, k.arr[arr].arr) and not reads(want, k.arr[arr].arr)
        g.stale = stale
        out.append(g)
    if want_frame:
        out += frame(k, sp["out"], fs, base, where, rule)
    return out


def frame(k, outs, fs, base, where, rule):
    """operands that are not outputs keep their contents"""
    out = []
    x = sym("x")
    for i, s in k.arr.items():
        if i in outs:
            continue
        st = k.state(i)
        if st == ("init", s.arr):
            out.append(Goal("%s: operand %d unchanged" % (base, i), HOLDS, where, "never written", rule))
            continue
        cx = Ctx(fs + rng(x, s.n), POS)
        got = why = None
        try:
            got = Q(k.I).read(st, s.off + x, cx, top=True)
        except Undecided as e:
            why = str(e)
        out.append(settle(k, "%s: operand %d unchanged" % (base, i), got, k.e0(i, x), cx, fs + rng(x, s.n), where, rule, lambda ev, env, S_=st, e_=s.off + x: ev.read(S_, ev.n(e_, env), env), None, why))
    return out


def check_group(prog, group):
    out = []
    for (t, m) in SPECS:
        if m in GROUPS[group]:
            out += check_method(prog, t, m)
    return out


# ------------------------------------------------------------------ Cholesky
def flat_abort(I, Q_, lit, cx, seen=0):
    """abort literal -> list of (conditions) alternatives over fresh counters"""
    _, lid, n, args = lit
    L = I.loops[lid]
    conds, _ = L.aborts[n]
    t = sym(fresh("e"))
    m = {p: a for p, a in zip(L.params, args)}
    m[L.t] = t
    alts = [[ge0(t), ge0(subst(I.norm(L.N), m) - 1 - t)]]
    for c_ in conds:
        c_ = subst(I.norm(c_), m)
        if c_[0] == "abort":
            sub = flat_abort(I, Q_, c_, cx)
            alts = [a + s for a in alts for s in sub]
        elif c_[0] == "not" and c_[1][0] == "abort":
            # first-exit bookkeeping: implied by taking the earliest iteration
            continue
        else:
            alts = [a + [c_] for a in alts]
    return alts


def check_cholesky(prog):
    rule = "lower Cholesky recurrence and definiteness verdict"
    out = []
    bs = bodies(prog, "MatrixMut", "cholesky_decompose_lower")
    if not bs:
        return [Goal("cholesky:missing", VIOLATED, "minikalman", "no Cholesky kernel", rule)]
    for b, imp in bs:
        where = "%s (%s)" % (b["path"], short(b["span"]))
        base = b["path"].replace("minikalman::", "")
        try:
            out += cholesky_body(prog, b, imp, base, where, rule)
        except Undecided as e:
            out.append(Goal(base, unfinished(e), where, str(e), rule))
    return out


def chol_ref(a, n):
    """reference decomposition of a symmetric matrix; None when a pivot is not positive"""
    L = {}
    for j in range(n):
        for i in range(j, n):
            v = a(i, j) - sum((L[i, z] * L[j, z] for z in range(j)), 0)
            if i == j:
                if v <= 0 or pit.same(v, 0):
                    return None
                L[i, i] = v.sqrt()
            else:
                L[i, j] = v / L[j, j]
    return L


def square_data(arr, off, definite):
    """symmetric contents (with a chosen definiteness) for one array, generic for the others"""
    def data(d, di, mode):
        n = d.get("N", 1)
        rnd = pit.random.Random("sq%d/%d" % (di, mode))
        D = pit.Decimal
        dg = [D(rnd.randint(1, 9)) / 4 for _ in range(n)]
        if not definite and mode != 2 and rnd.random() < 0.7:
            z = rnd.randrange(n + 1)
            if z < n:
                dg[z] = D(rnd.choice((0, -1, -3))) if mode == 0 else D(0)
        U = {(i, j): D(1) if i == j else D(rnd.randint(-6, 6)) / 2 for i in range(n) for j in range(i + 1)}
        sc = (D(1), D(2) ** -44, D(2) ** -16, D(2) ** 20, D(2) ** -60)[di % 5]       # thresholds: pivots of all magnitudes
        A = {(i, j): sc * sum((U[i, z] * dg[z] * U[j, z] for z in range(j + 1)), D(0)) for i in range(n) for j in range(i + 1)}
        other = pit.content(di, 0)

        def f(x, e):
            if x == arr and 0 <= e - off < n * n:
                i, j = divmod(e - off, n)
                return A[max(i, j), min(i, j)]
            return other(x, e)
        return f
    return data


def cholesky_body(prog, b, imp, base, where, rule):
    k = K(prog, b, imp, "MatrixMut", square=True).run()
    I = k.I
    st = k.state(1)
    ret = k.ret
    out = []
    if not isinstance(ret, B):
        raise Undecided("verdict is not a boolean term")
    i, j = sym("i"), sym("j")
    fs = facts_for(k, {1: N * N})
    hard = [n for n in I.notes if not n.startswith("uninterpreted")]
    if hard:
        raise Undecided(hard[0])
    # success path
    ok = ret.c
    fail = neg(ok)
    arr, off = k.arr[1].arr, k.arr[1].off
    off0 = off.const()
    if off0 is None:
        raise Undecided("storage offset")
    S_ = st
    q = Lf = dsub = None
    why = None
    try:
        if ok in (T, F):
            raise Undecided("verdict is constantly %s" % (ok == T))
        while S_[0] == "sel":
            if S_[1] == fail:
                S_ = S_[3]
            elif S_[1] == ok:
                S_ = S_[2]
            elif Ctx(fs + [ok], POS).entails(S_[1]):
                S_ = S_[2]
            elif Ctx(fs + [ok], POS).entails(neg(S_[1])):
                S_ = S_[3]
            else:
                break
    except Undecided as e:
        why = str(e)
    q = Q(I, {S_: "L"})

    def Lf(x, y):
        return patom(("rd", ("fin", "L"), off + x * N + y))

    def diag(x):
        return rfn("sqrt", k.e0(1, x * N + x) - S("k", x, lambda z: Lf(x, z) * Lf(x, z)))

    def dsub(p):
        # L[x,x] read back is the square root of the pivot
        def f(a):
            if a[0] == "rd" and a[1] == ("fin", "L"):
                e = a[2] - off
                q_ = e.coeff(("sym", "N"))
                if q_ and q_[0] == q_[1]:
                    return diag(q_[0])
            return None
        return rebuild(p, f)

    def ref(ev, env):
        L = ev.memo.get("ref")
        if L is None:
            n = env["N"]
            L = ev.memo["ref"] = chol_ref(lambda x, y: ev.data(arr, off0 + x * n + y), n) or {}
        return L

    cases = [
        ("L[j,i]=(A[i,j]-sum L[i,k]L[j,k])/L[i,i]", j * N + i, [ge0(j - i - 1)], (k.e0(1, i * N + j) - S("k", i, lambda z: Lf(i, z) * Lf(j, z))) * rfn("recip", diag(i)), lambda ev, env: ref(ev, env)[env["j"], env["i"]]),
        ("L[i,i]=sqrt(A[i,i]-sum L[i,k]^2)", i * N + i, [], diag(i), lambda ev, env: ref(ev, env)[env["i"], env["i"]]),
        ("upper triangle zero", j * N + i, [ge0(i - j - 1)], ZERO, lambda ev, env: 0),
    ]
    rg = rng(i, N) + rng(j, N)
    for label, e, f, want, num in cases:
        cx = Ctx(fs + rg + f + [ok], POS)
        key = base + ": " + label
        got = None
        w_ = why
        if why is None:
            try:
                got = dsub(q.read(S_, off + e, cx, top=True))
            except Undecided as x:
                w_ = str(x)
        read = lambda ev, env, e_=off + e: ev.read(st, ev.n(e_, env), env)
        out.append(settle(k, key, got, want, cx, fs + rg + f, where, rule, read, {1: N * N}, w_, square_data(arr, off0, True), num))
    # verdict: false exactly when a pivot is not positive
    key = base + ": rejects exactly when a pivot is <= 0"
    good, detail = False, why
    try:
        if why is None:
            good, detail = chol_verdict(k, q, fail, fs, Lf, dsub)
    except Undecided as x:
        detail = str(x)
    if good:
        out.append(Goal(key, HOLDS, where, "pivot = A[i,i]-sum L[i,k]^2, all i<n", rule))
        return out
    try:
        w = pit.separate(lambda ev, env: ev.c(ok, env), lambda ev, env: bool(ref(ev, env)), fs + [ge0(N - 1)], POS, I, k.lenmap({1: N * N}), pit.loop_consts(I), square_data(arr, off0, False))
        if w:
            out.append(Goal(key, VIOLATED, where, "%s; %s" % (pit.witness(w), detail), rule))
        else:
            out.append(Goal(key, UNDECIDED, where, "%s (not separated)" % detail, rule))
    except pit.NoValue as x:
        out.append(Goal(key, UNDECIDED, where, "%s (no valuation: %s)" % (detail, x), rule))
    return out


def chol_verdict(k, q, fail, fs, Lf, dsub):
    I = k.I
    if fail[0] != "abort":
        raise Undecided("verdict condition %s" % show(fail)[:120])
    alts = flat_abort(I, q, fail, None)
    if len(alts) != 1:
        return False, "%d rejection conditions" % len(alts)
    conds = alts[0]
    ints = [x for x in conds if x[0] in ("ge0", "eq0", "ne0", "and")]
    data = [x for x in conds if x not in ints]
    cx = Ctx(fs + ints, POS)
    if len(data) != 1:
        return False, "rejection depends on %d data conditions" % len(data)
    d = q.resolve_c(data[0], cx)
    if d[0] == "not" and d[1][0] == "lt" and d[1][1] == ZERO:
        d = ("le", d[1][2], ZERO)
    if d[0] != "le" or d[2] != ZERO:
        return False, "rejects when %s" % show(d)[:200]
    # the pivot index: the outermost counter
    piv = None
    for s_ in sorted(free_syms(d[1]) - {"N"}):
        i_ = sym(s_)
        w = k.e0(1, i_ * N + i_) - S("k", i_, lambda z: Lf(i_, z) * Lf(i_, z))
        if equal(dsub(d[1]), w, cx):
            piv = s_
    if piv is None:
        return False, "rejects when %s <= 0" % show(canon(d[1], cx))[:200]
    # the pivot index ranges over all rows and nothing else restricts it
    v = sym("p")
    m = {piv: v}
    for s_ in sorted({s for x in ints for s in free_syms(x)} - {"N", piv}):
        # inner counters: must be pinned by an equation or vacuous at 0
        m[s_] = ZERO
    c2 = Ctx(fs + rng(v, N), POS)
    for x in ints:
        if not c2.entails(subst(x, m)):
            return False, "pivot test is restricted by %s" % show(x)
    return True, ""


def check_inverse(prog):
    rule = "inverse from Cholesky factor: forward and backward substitution recurrences"
    out = []
    bs = bodies(prog, "SquareMatrix", "invert_l_cholesky")
    if not bs:
        return [Goal("inverse:missing", VIOLATED, "minikalman", "no inversion kernel", rule)]
    for b, imp in bs:
        where = "%s (%s)" % (b["path"], short(b["span"]))
        base = b["path"].replace("minikalman::", "")
        try:
            out += inverse_body(prog, b, imp, base, where, rule)
        except Undecided as e:
            out.append(Goal(base, unfinished(e), where, str(e), rule))
    return out


def inverse_ref(l, n):
    """inverse of L L' by forward and backward substitution on the unit vectors"""
    X = {}
    for c_ in range(n):
        y = []
        for r_ in range(n):
            v = pit.Decimal(1 if r_ == c_ else 0) - sum((l(r_, z) * y[z] for z in range(r_)), 0)
            y.append(v / l(r_, r_))
        x = [None] * n
        for r_ in reversed(range(n)):
            v = y[r_] - sum((l(z, r_) * x[z] for z in range(r_ + 1, n)), 0)
            x[r_] = v / l(r_, r_)
        for r_ in range(n):
            X[r_, c_] = x[r_]
    return X


def lower_data(arr, off):
    """a lower triangular factor with positive diagonal; the upper triangle is arbitrary"""
    def data(d, di, mode):
        n = d.get("N", 1)
        other = pit.content(di, 0)

        def f(x, e):
            v = other(x, e)
            if x == arr and 0 <= e - off < n * n and (e - off) // n == (e - off) % n:
                return abs(v)
            return v
        return f
    return data


def inverse_body(prog, b, imp, base, where, rule):
    k = K(prog, b, imp, "SquareMatrix").run()
    I = k.I
    out = []
    X = k.state(2)
    hard = [n for n in I.notes if not n.startswith("uninterpreted")]
    if hard:
        raise Undecided(hard[0])
    fs = facts_for(k, {1: N * N, 2: N * N})
    i, j = sym("i"), sym("j")
    rg = rng(i, N) + rng(j, N)
    off0 = k.arr[1].off.const()
    if off0 is None:
        raise Undecided("storage offset")
    o = k.arr[2].off

    def structural():
        if X[0] != "cur":
            raise Undecided("final state is not a loop result")
        M = Q(I).inst_init(I.loops[X[1]], X)
        if M[0] != "cur":
            raise Undecided("first pass is not a loop result")

        def A(x, y):
            return k.e0(1, x * N + y)

        def m(x, y):
            return patom(("rd", ("fin", "M"), o + x * N + y))

        def xx(x, y):
            return patom(("rd", ("fin", "X"), o + x * N + y))

        low = [ge0(i - j - 1)]
        fwd = lambda d: (d - S("k", i - j, lambda z: A(i, j + z) * m(j, j + z))) * rfn("recip", A(i, i))
        bwd = (m(j, i) - S("k", N - 1 - i, lambda z: A(i + 1 + z, i) * xx(j, i + 1 + z))) * rfn("recip", A(i, i))
        for label, named, top, e, f, want in (
            ("forward pass, i>j", {M: "M"}, M, j * N + i, low, fwd(ZERO)),
            ("forward pass, i=j", {M: "M"}, M, i * N + i, [], rfn("recip", A(i, i))),
            ("backward pass, upper", {X: "X", M: "M"}, X, j * N + i, low, bwd),
            ("backward pass, lower", {X: "X", M: "M"}, X, i * N + j, low, bwd),
            ("backward pass, diagonal", {X: "X", M: "M"}, X, i * N + i, [], subst(bwd, {"j": i})),
        ):
            cx = Ctx(fs + rg + f, POS)
            got = Q(I, named).read(top, o + e, cx, top=True)
            if not equal(got, want, cx):
                return None, "%s: element value is %s, required %s" % (label, show(canon(got, cx))[:240], show(canon(want, cx))[:160])
            out.append(Goal(base + ": " + label, HOLDS, where, "= " + show(want)[:160], rule))
        return True, ""

    try:
        good, detail = structural()
    except Undecided as e:
        good, detail = None, str(e)
    if not good:
        del out[:]
        arr = k.arr[1].arr

        def ref(ev, env):
            R_ = ev.memo.get("ref")
            if R_ is None:
                n = env["N"]
                R_ = ev.memo["ref"] = inverse_ref(lambda x, y: ev.data(arr, off0 + x * n + y), n)
            return R_[env["i"], env["j"]]
        key = base + ": inverse of L L'"
        try:
            w = pit.separate(lambda ev, env: ev.read(X, ev.n(o + i * N + j, env), env), ref, fs + rg, POS, I, k.lenmap({1: N * N, 2: N * N}), pit.loop_consts(I), lower_data(arr, off0))
            if w:
                out.append(Goal(key, VIOLATED, where, "%s; %s" % (pit.witness(w), detail), rule))
            else:
                out.append(Goal(key, UNDECIDED, where, "%s (not separated)" % detail, rule))
        except pit.NoValue as e:
            out.append(Goal(key, UNDECIDED, where, "%s (no valuation: %s)" % (detail, e), rule))
    out += frame(k, [2], fs, base, where, rule)
    return out
