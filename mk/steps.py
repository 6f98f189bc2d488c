"""Filter steps (predict, control, correct) as equations over matrices.

The interpreter runs over the step's MIR with the matrix kernels replaced by their contracts
(each contract is verified separately, element by element, in kernels.py).  The contents of a
matrix are a normal form: a linear combination of words over matrix symbols, i.e. an element of
the free (non-commutative) algebra with transposition and inverse of a Cholesky-factorised
matrix.  Nothing is executed; every path of the step is covered at once.
"""
from .poly import *
from .poly import atom as patom
from .fm import Ctx
from .prog import last
from .interp import Interp, State, Undecided, Endless, B, Op, Ref, Sl, Arr, Unk, Agg, Clo, FnV, UNIT, fz, uz
from .arrays import Q, equal, canon, subterms, first_ite
from .goals import Goal, HOLDS, VIOLATED, UNDECIDED, short
from . import models, pit

# ------------------------------------------------------------------ the free algebra
# term: tuple of (word, coefficient) sorted; word: tuple of factors
#   factor: ("v", array) ("vt", array) ("inv", term) ("chol", term) ("cholt", term) ("op", label...) ("opt", label...)


def mk(d):
    return tuple(sorted(((w, c) for w, c in d.items() if c != ZERO), key=lambda x: repr_key(x[0])))


def repr_key(w):
    return tuple(aid(("w", f)) for f in w)


def var(a):
    return ((((("v", a),)), ONE),)


IDENT = (((), ONE),)


def madd(x, y, s=ONE):
    d = dict(x)
    for w, c in y:
        d[w] = d.get(w, ZERO) + s * c
    return mk(d)


def mscale(x, s):
    return mk({w: c * s for w, c in x})


def mmulm(x, y):
    d = {}
    for w, c in x:
        for v, e in y:
            k = word(w + v)
            d[k] = d.get(k, ZERO) + c * e
    return mk(d)


def word(w):
    return w


def tfac(f):
    if f[0] == "v":
        return ("vt",) + f[1:]
    if f[0] == "vt":
        return ("v",) + f[1:]
    if f[0] == "inv":
        return f            # the inverse kernel produces a symmetric matrix
    if f[0] == "chol":
        return ("cholt",) + f[1:]
    if f[0] == "cholt":
        return ("chol",) + f[1:]
    if f[0] == "op":
        return ("opt",) + f[1:]
    if f[0] == "opt":
        return ("op",) + f[1:]
    return ("tr", f)


def mtr(x):
    return mk({tuple(tfac(f) for f in reversed(w)): c for w, c in x})


def factors(x):
    """all factors, recursively"""
    for w, c in x:
        for f in w:
            yield f
            for y in f[1:]:
                if isinstance(y, tuple) and y and f[0] in ("inv", "chol", "cholt"):
                    yield from factors(y)


def mshow(x, names=None):
    if not x:
        return "0"
    out = []
    for w, c in x:
        s = "*".join(fshow(f, names) for f in w) or "I"
        out.append(s if c == ONE else "-" + s if c == -ONE else "(%s)*%s" % (show(c), s))
    return " + ".join(out).replace("+ -", "- ")


def fshow(f, names=None):
    nm = lambda a: (names or {}).get(a, str(a))
    if f[0] == "v":
        return nm(f[1])
    if f[0] == "vt":
        return nm(f[1]) + "'"
    if f[0] == "inv":
        return "inv(%s)" % mshow(f[1], names)
    if f[0] == "chol":
        return "chol(%s)" % mshow(f[1], names)
    if f[0] == "cholt":
        return "chol(%s)'" % mshow(f[1], names)
    if f[0] in ("op", "opt") and f[1] == "raw":
        return "elements%s(%s)" % ("'" if f[0] == "opt" else "", show_state(f[2])[:60])
    if f[0] in ("op", "opt"):
        return "%s%s(%s)" % (f[1], "'" if f[0] == "opt" else "", ",".join(nm(y) if isinstance(y, str) else str(y)[:40] for y in f[2:]))
    return str(f)


def shifts(body, v):
    """constant offsets of the summation variable in read indices"""
    out = []
    for a in subterms(body):
        if a[0] == "rd":
            k = a[2].coeff(("sym", v)) if isinstance(v, str) else None
            if k and k[0] == ONE:
                for q in (P(k[1].const()) if k[1].const() is not None else None, P(dict(k[1].t).get((), 0))):
                    if q is not None and q != ZERO and q not in out:
                        out.append(q)
    return out


def plain(a, ok):
    """an integer built from the given symbols, minima and positive parts"""
    return (a[0] == "sym" and a[1] in ok) or (a[0] == "fn" and a[1] in ("min", "max0") and all(plain(b, ok) for x in a[2:] for b in x.atoms()))


def pick_ok(c, pos, idx):
    """a condition on the position (and possibly the data there) whose outcomes both occur"""
    if c[0] in ("and", "or"):
        return all(pick_ok(x, pos, idx) for x in c[1])
    if c[0] == "not":
        return pick_ok(c[1], pos, idx)
    if c[0] in ("ge0", "eq0", "ne0"):
        return all(plain(a, set(pos) | set(idx)) for a in c[1].atoms())
    if c[0] in ("eq", "lt", "le"):
        d = c[1] - c[2]
        return all(a[0] in ("sym", "rd") and (a[0] == "sym" or a[1][0] in ("init", "mx")) for a in d.atoms()) and any(len(m) == 1 and m[0][0][0] == "rd" for m, _ in d.t)
    return False


def diagnorm(t):
    """equal for terms with the same diagonal (words up to transposition)"""
    d = {}
    for w, c in t:
        v = tuple(tfac(f) for f in reversed(w))
        k = min(w, v, key=repr_key)
        d[k] = d.get(k, ZERO) + c
    return mk(d)


# ------------------------------------------------------------------ hooks
KERNELS = {"Matrix", "MatrixMut", "SquareMatrix", "SquareMatrixMut"}
ASM = {"as_matrix", "as_matrix_mut"}


class Steps:
    def __init__(self, I, local_traits):
        self.I = I
        self.events = []
        self.dims = {}
        self.n = 0
        self.used = {}
        self.mats = set()

    # matrix contents -----------------------------------------------------
    def arr(self, s, v):
        return models.view(self.I, s, v)

    def term(self, s, v, dims):
        sl = self.arr(s, v)
        if sl is None:
            raise Undecided("matrix operand")
        if sl.off != ZERO:
            raise Undecided("matrix operand inside a buffer")
        self.dims.setdefault(sl.arr, dims)
        return self.norm(self.I.arr_state(s, sl.arr), dims, tuple(s.cond))

    def norm(self, S, dims, extra=()):
        if S[0] == "init":
            return var(S[1])
        if S[0] == "mx":
            return S[1]
        if S[0] == "const" and S[2] == ZERO:
            return ()
        if S[0] == "sel":
            cx = self.I.curctx().plus(*extra)
            if cx.entails(S[1]):
                return self.norm(S[2], dims, extra)
            if cx.entails(neg(S[1])):
                return self.norm(S[3], dims, extra)
            a, b = self.norm(S[2], dims, extra + (S[1],)), self.norm(S[3], dims, extra + (neg(S[1]),))
            if a == b:
                return a
            return ((((("op", "if", S[1], a, b),)), ONE),)
        t = self.recognise(S, dims, extra)
        if t is None and (not dims or dims[0] is None):
            raise Undecided("matrix written element by element (%s)" % show_state(S)[:80])
        if t is None or picky(t):
            # kept as it is, next to what could be read out of it
            return ((((("op", "raw", S, dims, t),)), ONE),)
        return t

    def recognise(self, S, dims, extra=()):
        """fold an element-level array back into the algebra"""
        r, c = sym("r!"), sym("c!")
        R, C = dims
        if R is None:
            return None
        facts = [ge0(r), ge0(R - 1 - r)]
        if C == ONE:
            e = r
        elif R == ONE:
            e = c
            facts = []
        else:
            e = r * C + c
        if C != ONE:
            facts += [ge0(c), ge0(C - 1 - c)]
        cx = Ctx(list(self.I.facts) + facts + list(extra), self.I.pos)
        try:
            p = canon(Q(self.I).read(S, e, cx, top=True), cx)
        except Undecided:
            return None
        return self.fold(p, r if R != ONE else None, c if C != ONE else None, 0, cx, dims)

    def fold(self, p, r, c, depth, cx=None, dims=None):
        """polynomial in element reads, row index r, column index c -> term"""
        if depth > 6:
            return None
        a = first_ite(p)
        if a is not None and cx is not None:
            return self.foldite(p, a, r, c, depth, cx, dims)
        out = ()
        inner = {x for x in (as_s(r), as_s(c)) if x}
        for m, k in p.t:
            coef = P(k)
            mat = None
            o = self.outer(m, r, c, depth, cx) if r is not None and c is not None else None
            if o is not None:
                out = madd(out, mscale(o, coef))
                continue
            for a, e in m:
                if not (free_syms(a) & inner):
                    coef = coef * Poly({((a, e),): 1})
                elif a[0] == "rd":
                    t = self.foldread(a, r, c, cx)
                    if t is None or mat is not None or e != 1:
                        return None
                    mat = t
                elif a[0] == "sum":
                    t = self.foldsum(a, r, c, depth, cx)
                    if t is None or mat is not None or e != 1:
                        return None
                    mat = t
                else:
                    return None
            if mat is None:
                if not dims or not self.is_one(cx, dims):
                    return None
                mat = IDENT
            out = madd(out, mscale(mat, coef))
        return out

    def outer(self, m, r, c, depth, cx):
        """column times row"""
        hr = [(a, e) for a, e in m if as_s(r) in free_syms(a)]
        hc = [(a, e) for a, e in m if as_s(c) in free_syms(a)]
        if len(m) < 2 or len(hr) != 1 or len(hc) != 1 or hr == hc or hr[0][1] != 1 or hc[0][1] != 1:
            return None
        x = self.fold(Poly({tuple(hr): 1}), r, None, depth + 1, cx)
        y = self.fold(Poly({tuple(hc): 1}), None, c, depth + 1, cx)
        if x is None or y is None:
            return None
        return mscale(mmulm(x, y), Poly({tuple(z for z in m if z not in hr and z not in hc): 1}))

    def is_one(self, cx, dims):
        return cx is not None and cx.entails(eq0(dims[0] - 1)) and cx.entails(eq0(dims[1] - 1))

    def foldite(self, p, a, r, c, depth, cx, dims):
        """an element chosen by a condition: on the position (pick) or on data (if)"""
        cond = a[1]
        inner = {x for x in (as_s(r), as_s(c)) if x}
        br = []
        for cc, v in ((cond, a[2]), (neg(cond), a[3])):
            x = cx.tight(cc)
            q = canon(rebuild(p, lambda z: v if z == a else None), x)
            br.append((cc, x, q, self.fold(q, r, c, depth + 1, x, dims)))
        (c1, x1, p1, t1), (c2, x2, p2, t2) = br
        if t1 is not None and t1 == t2:
            return t1
        if not (free_syms(cond) & inner):
            if t1 is None and t2 is None:
                return None
            t1, t2 = self.elem(t1, p1), self.elem(t2, p2)
            return ((((("op", "if", cond, t1, t2),)), ONE),)
        if r is not None and c is not None:
            for i, j in ((0, 1), (1, 0)):
                ci, xi, pi, ti = br[i]
                cj, xj, pj, tj = br[j]
                if not xi.entails(eq0(r - c)) or tj is None:
                    continue
                # only diagonal elements: a matrix and its transpose agree there
                d = canon(pi - pj, xi)
                if not (free_syms(d) & inner) and xj.entails(ne0(r - c)):
                    return madd(tj, mscale(IDENT, d))
                if ti is not None and diagnorm(ti) == diagnorm(tj):
                    return tj
        if t1 is None and t2 is None:
            return None
        sure = pick_ok(cond, self.I.pos, inner)
        return ((((("op", "pick", cond, self.elem(t1, p1), self.elem(t2, p2), sure),)), ONE),)

    def elem(self, t, p):
        return t if t is not None else ((((("op", "elem", p),)), ONE),)

    def foldsum(self, a, r, c, depth, cx=None):
        _, v, n, body = a
        for sh in [ZERO] + shifts(body, v):
            out = self.foldsum1(v, n, body, sh, r, c, depth, cx)
            if out is not None:
                return out
        return None

    def foldsum1(self, v, n, body, sh, r, c, depth, cx):
        """sum over sh <= k < sh+n of products of a row element and a column element"""
        k = sym(fresh("k!"))
        body = subst(body, {v: k - sh}) if isinstance(v, str) else body
        kx = cx.plus(ge0(k - sh), ge0(sh + n - 1 - k)) if cx is not None else None
        inner = {x for x in (as_s(r), as_s(c)) if x}
        it = first_ite(body)
        if it is not None and cx is not None:
            # terms selected by a condition
            br = []
            for cc, val in ((it[1], it[2]), (neg(it[1]), it[3])):
                q = canon(rebuild(body, lambda z: val if z == it else None), kx.tight(cc))
                br.append(self.foldsum2(k, sh, n, q, r, c, depth, cx, kx.tight(cc)))
            if br[0] is None or br[1] is None:
                return None
            if br[0] == br[1]:
                return br[0]
            ix = inner | {as_s(k)}
            if not (free_syms(it[1]) & ix):
                return ((((("op", "if", it[1], br[0], br[1]),)), ONE),)
            return ((((("op", "pick", it[1], br[0], br[1], pick_ok(it[1], self.I.pos, ix)),)), ONE),)
        return self.foldsum2(k, sh, n, body, r, c, depth, cx, kx)

    def foldsum2(self, k, sh, n, body, r, c, depth, cx, kx):
        out = ()
        for m, co in body.t:
            left, right, coef = None, None, P(co)
            for at, e in m:
                fs = free_syms(at)
                hr = r is not None and as_s(r) in fs
                hc = c is not None and as_s(c) in fs
                hk = as_s(k) in fs
                if not (hr or hc or hk):
                    coef = coef * Poly({((at, e),): 1})
                    continue
                if e != 1 or (hr and hc):
                    return None
                one = Poly({((at, 1),): 1})
                if hr and hk and left is None:
                    left = self.fold(one, r, k, depth + 1, kx)
                elif hc and hk and right is None:
                    right = self.fold(one, k, c, depth + 1, kx)
                elif hk and r is None and left is None and not hc:
                    left = self.fold(one, None, k, depth + 1, kx)
                elif hk and c is None and right is None and not hr:
                    right = self.fold(one, k, None, depth + 1, kx)
                else:
                    return None
            if left is None or right is None:
                return None
            left, right = self.masked(left, right, k, sh, n, cx, r, c)
            if left is None:
                return None
            out = madd(out, mscale(mmulm(left, right), coef))
        return out

    def masked(self, left, right, k, sh, n, cx, r, c):
        """a sum that does not run over the whole inner dimension is a product with a masked matrix"""
        d = None
        for t, i in ((left, 1), (right, 0)):
            x = self.tdims(t)
            if x is not None and x[i] is not None:
                d = x[i]
        if d is None:
            return None, None
        if sh == ZERO and d == n:
            return left, right
        if cx is None:
            return None, None
        x = cx.plus(ge0(k), ge0(d - 1 - k))
        cond = mk_and([y for y in (ge0(k - sh), ge0(sh + n - 1 - k)) if not x.entails(y)])
        if cond == T:
            return left, right
        if not x.entails(ge0(sh)) or not cx.entails(ge0(d - sh - n)):
            return None, None
        fs = free_syms(cond)
        ix = {as_s(y) for y in (r, c, k) if y is not None}
        sure = pick_ok(cond, self.I.pos, ix)
        m = lambda t: ((((("op", "pick", cond, t, (), sure),)), ONE),)
        if c is not None and as_s(c) in fs:
            if r is not None and as_s(r) in fs:
                return None, None
            return left, m(right)
        return m(left), right

    def fdims(self, f):
        if f[0] == "v":
            return self.dims.get(f[1])
        if f[0] == "vt":
            d = self.dims.get(f[1])
            return d and (d[1], d[0])
        if f[0] in ("inv", "chol", "cholt"):
            return self.tdims(f[1])
        if is_raw(f):
            return f[3] if f[0] == "op" else (f[3][1], f[3][0])
        return None

    def tdims(self, t):
        for w, c in t:
            if w:
                a, b = self.fdims(w[0]), self.fdims(w[-1])
                if a or b:
                    return (a[0] if a else None, b[1] if b else None)
        return None

    def foldread(self, a, r, c, cx=None):
        S, e = a[1], a[2]
        if S[0] == "init":
            base = var(S[1])
            d = self.dims.get(S[1])
        elif S[0] == "mx":
            base = S[1]
            d = S[2]
        else:
            return None
        if d is None or d[0] is None:
            return None
        R, C = d

        def at(x):
            return e == x or (cx is not None and cx.entails(eq0(e - x)))
        if r is not None and c is not None:
            if C != ONE and R != ONE:
                if at(r * C + c):
                    return base
                if at(c * C + r):
                    return mtr(base)
                return None
            return None
        i = r if r is not None else c
        if i is None:
            return base if (R == ONE and C == ONE and e == ZERO) else None
        def unit(n):
            return n == ONE or (cx is not None and cx.entails(eq0(n - 1)))
        if unit(C) and at(i):
            return base if r is not None else mtr(base)
        if unit(R) and at(i):
            return base if c is not None else mtr(base)
        return None

    def put(self, s, v, t, dims):
        sl = self.arr(s, v)
        if sl is None or sl.off != ZERO:
            raise Undecided("matrix target")
        self.dims.setdefault(sl.arr, dims)
        self.I.arr_state(s, sl.arr)
        s.arrs[sl.arr] = ("mx", t, dims)

    # calls ---------------------------------------------------------------
    def hook(self, I, s, c, args, fr, sp):
        tr = c.get("trait")
        name = last(c["fn"])
        if tr is None:
            return NotImplemented
        t = last(tr)
        if name in ASM and "minikalman" in tr:
            # resolved for a type of this crate: follow the code; for a type parameter: the same place
            slf = c.get("self") or {}
            if slf.get("k") in ("param", "alias"):
                self.used["as_matrix"] = self.used.get("as_matrix", 0) + 1
                return args[0]
            return NotImplemented
        if t in KERNELS and "minikalman" in tr:
            slf = c.get("self") or {}
            if slf.get("k") in ("param", "alias"):
                k = getattr(self, "k_" + name, None)
                if k is not None:
                    if I.loopstack:
                        raise Undecided("matrix kernel inside a loop")
                    self.used[name] = self.used.get(name, 0) + 1
                    return k(s, c, args, fr, sp)
            return NotImplemented
        if name in ("call_mut", "call_once", "call") and t in ("FnMut", "FnOnce", "Fn"):
            return self.usercall(I, s, c, args, fr, sp)
        if "minikalman" in tr and (c.get("self") or {}).get("k") in ("param", "alias"):
            b = I.prog.bodies.get(c["sp"])
            if models.key(c["fn"]) in models.TABLE:
                return NotImplemented
            if b is None or not b.get("body"):
                return self.delegate(I, s, c, args, fr, sp)
        return NotImplemented

    def D(self, c):
        """(rows, cols) of Self from the trait arguments"""
        t = last(c["trait"])
        a = [self.I.cpoly(x, {}) for x in c["args"][1:] if x["k"] in ("cparam", "cval", "cpoly", "cother")]
        if t.startswith("Square"):
            return (a[0], a[0]), a[1:]
        return (a[0], a[1]), a[2:]

    def k_mult(self, s, c, args, fr, sp):
        (R, C), (U,) = self.D(c)
        self.put(s, args[2], mmulm(self.term(s, args[0], (R, C)), self.term(s, args[1], (C, U))), (R, U))
        return UNIT

    def k_mult_buffered(self, s, c, args, fr, sp):
        (R, C), (U,) = self.D(c)
        self.put(s, args[2], mmulm(self.term(s, args[0], (R, C)), self.term(s, args[1], (C, U))), (R, U))
        sl = self.arr(s, args[3])
        if sl is None:
            raise Undecided("auxiliary buffer")
        self.I.arr_state(s, sl.arr)
        self.n += 1
        s.arrs[sl.arr] = ("mx", (((("op", "aux", self.n),), ONE),), (C, ONE))
        return UNIT

    def k_mult_rowvector(self, s, c, args, fr, sp):
        (R, C), _ = self.D(c)
        self.put(s, args[2], mmulm(self.term(s, args[0], (R, C)), self.term(s, args[1], (C, ONE))), (R, ONE))
        return UNIT

    def k_multadd_rowvector(self, s, c, args, fr, sp):
        (R, C), _ = self.D(c)
        self.put(s, args[2], madd(self.term(s, args[2], (R, ONE)), mmulm(self.term(s, args[0], (R, C)), self.term(s, args[1], (C, ONE)))), (R, ONE))
        return UNIT

    def k_mult_transb(self, s, c, args, fr, sp):
        (R, C), (U,) = self.D(c)
        self.put(s, args[2], mmulm(self.term(s, args[0], (R, C)), mtr(self.term(s, args[1], (U, C)))), (R, U))
        return UNIT

    def k_multadd_transb(self, s, c, args, fr, sp):
        (R, C), (U,) = self.D(c)
        self.put(s, args[2], madd(self.term(s, args[2], (R, U)), mmulm(self.term(s, args[0], (R, C)), mtr(self.term(s, args[1], (U, C))))), (R, U))
        return UNIT

    def k_multscale_transb(self, s, c, args, fr, sp):
        (R, C), (U,) = self.D(c)
        k = models.num(self.I, s, args[2])
        self.put(s, args[3], mscale(mmulm(self.term(s, args[0], (R, C)), mtr(self.term(s, args[1], (U, C)))), k), (R, U))
        return UNIT

    def k_sub(self, s, c, args, fr, sp):
        d, _ = self.D(c)
        self.put(s, args[2], madd(self.term(s, args[0], d), self.term(s, args[1], d), -ONE), d)
        return UNIT

    def k_add_inplace_a(self, s, c, args, fr, sp):
        d, _ = self.D(c)
        self.put(s, args[0], madd(self.term(s, args[0], d), self.term(s, args[1], d)), d)
        return UNIT

    def k_add_inplace_b(self, s, c, args, fr, sp):
        d, _ = self.D(c)
        self.put(s, args[1], madd(self.term(s, args[0], d), self.term(s, args[1], d)), d)
        return UNIT

    def k_sub_inplace_a(self, s, c, args, fr, sp):
        d, _ = self.D(c)
        self.put(s, args[0], madd(self.term(s, args[0], d), self.term(s, args[1], d), -ONE), d)
        return UNIT

    def k_sub_inplace_b(self, s, c, args, fr, sp):
        d, _ = self.D(c)
        self.put(s, args[1], madd(self.term(s, args[0], d), self.term(s, args[1], d), -ONE), d)
        return UNIT

    def k_copy_to(self, s, c, args, fr, sp):
        d, _ = self.D(c)
        self.put(s, args[1], self.term(s, args[0], d), d)
        return UNIT

    k_copy = k_copy_to

    def k_copy_from(self, s, c, args, fr, sp):
        d, _ = self.D(c)
        self.put(s, args[0], self.term(s, args[1], d), d)
        return UNIT

    def k_clear(self, s, c, args, fr, sp):
        d, _ = self.D(c)
        self.put(s, args[0], (), d)
        return UNIT

    k_set_zero = k_clear

    def k_make_identity(self, s, c, args, fr, sp):
        d, _ = self.D(c)
        self.put(s, args[0], IDENT, d)
        return UNIT

    def k_make_scalar(self, s, c, args, fr, sp):
        d, _ = self.D(c)
        self.put(s, args[0], mscale(IDENT, models.num(self.I, s, args[1])), d)
        return UNIT

    def k_cholesky_decompose_lower(self, s, c, args, fr, sp):
        d, _ = self.D(c)
        x = self.term(s, args[0], d)
        self.put(s, args[0], ((((("chol", x),)), ONE),), d)
        return B(("b", "pd", x))

    def k_invert_l_cholesky(self, s, c, args, fr, sp):
        d, _ = self.D(c)
        x = self.term(s, args[0], d)
        if len(x) == 1 and x[0][1] == ONE and len(x[0][0]) == 1 and x[0][0][0][0] == "chol":
            v = ((((("inv", x[0][0][0][1]),)), ONE),)
        else:
            v = ((((("op", "invert_l", x),)), ONE),)
        self.put(s, args[1], v, d)
        return UNIT

    def usercall(self, I, s, c, args, fr, sp):
        f = args[0]
        g = f
        n = 0
        while isinstance(g, Ref) and n < 8:
            g = I.load(s, g.root, g.path)
            n += 1
        if not isinstance(g, Op):
            return NotImplemented
        if I.loopstack:
            raise Undecided("user function called in a loop")
        tys = c["args"][1]
        parts = list(args[1].fields) if isinstance(args[1], Agg) else [args[1]]
        tl = tys["tys"] if tys["k"] == "tuple" else [tys] * len(parts)
        ins, outs = [], []
        for v, t in zip(parts, tl):
            sl = self.arr(s, v)
            if sl is None:
                ins.append(("val", I.as_poly(models.unref(I, s, v))))
            elif t["k"] == "ref" and t["mut"]:
                outs.append(sl.arr)
            else:
                st = self.norm(I.arr_state(s, sl.arr), self.dims.get(sl.arr, (None, None)))
                ins.append(st)
        self.n += 1
        self.events.append(dict(kind="user", fn=g.name, ins=tuple(ins), outs=tuple(outs), conds=self.conds(s), sp=sp))
        for i, a in enumerate(outs):
            I.arr_state(s, a)
            s.arrs[a] = ("mx", (((("op", "user:" + g.name, i, tuple(ins)),), ONE),), self.dims.get(a, (None, None)))
        return UNIT

    def conds(self, s):
        cs = list(self.I.base_conds) + list(s.cond)
        cx = self.I.ctx()
        return tuple(c for c in cs if not cx.entails(c))

    def delegate(self, I, s, c, args, fr, sp):
        if I.loopstack:
            raise Undecided("delegated call in a loop")
        key = "%s::%s" % (last(c["trait"]), last(c["fn"]))
        desc = []
        outs = []
        for v in args:
            sl = self.arr(s, v) if isinstance(v, (Ref, Sl)) else None
            if sl is None or sl.arr not in self.mats:
                g = v
                n = 0
                while isinstance(g, Ref) and n < 8:
                    g = I.load(s, g.root, g.path)
                    n += 1
                desc.append(g.name if isinstance(g, Op) else str(type(g).__name__))
                continue
            desc.append((sl.arr, self.norm(I.arr_state(s, sl.arr), self.dims.get(sl.arr, (None, None)))))
            outs.append(sl.arr)
        self.n += 1
        self.events.append(dict(kind="delegate", fn=key, args=tuple(desc), conds=self.conds(s), sp=sp))
        for i, a in enumerate(outs):
            # a read-only reference cannot be told apart here; the callee may only write what it can
            I.arr_state(s, a)
            s.arrs[a] = ("mx", (((("op", "after:" + key, i, self.n),), ONE),), self.dims.get(a, (None, None)))
        return UNIT


# ------------------------------------------------------------------ roles
ROLE = {
    "StateVector": "x", "StateVectorMut": "x",
    "StateTransitionMatrix": "A", "StateTransitionMatrixMut": "A",
    "EstimateCovarianceMatrix": "P",
    "DirectProcessNoiseCovarianceMatrix": "Q", "DirectProcessNoiseCovarianceMatrixMut": "Q",
    "ControlVector": "u", "ControlVectorMut": "u",
    "ControlMatrix": "B", "ControlMatrixMut": "B",
    "ControlProcessNoiseCovarianceMatrix": "Qc", "ControlProcessNoiseCovarianceMatrixMut": "Qc",
    "MeasurementVector": "z", "MeasurementVectorMut": "z",
    "ObservationMatrix": "H", "ObservationMatrixMut": "H",
    "MeasurementNoiseCovarianceMatrix": "R",
    "PredictedStateEstimateVector": "scratch:px", "TemporaryStateMatrix": "scratch:tempP", "TemporaryBQMatrix": "scratch:BQ",
    "InnovationVector": "scratch:y", "InnovationCovarianceMatrix": "scratch:S", "KalmanGainMatrix": "scratch:K",
    "TemporaryResidualCovarianceInvertedMatrix": "scratch:Sinv", "TemporaryHPMatrix": "scratch:HP", "TemporaryPHTMatrix": "scratch:PHt", "TemporaryKHPMatrix": "scratch:KHP",
}
INPUTS = {"A", "Q", "u", "B", "Qc", "z", "H", "R"}
DIMS = {
    "x": ("S", 1), "A": ("S", "S"), "P": ("S", "S"), "Q": ("S", "S"), "u": ("C", 1), "B": ("S", "C"), "Qc": ("C", "C"), "z": ("O", 1), "H": ("O", "S"), "R": ("O", "O"),
}
GROUND = {"KalmanFilterObservationCorrectFilter": "M", "KalmanFilterNonlinearObservationCorrectFilter": "M", "KalmanFilterControlApplyToFilter": "I"}


def bounds(preds):
    out = {}
    for p in preds:
        if "trait" in p and p["args"] and p["args"][0]["k"] == "param":
            out.setdefault(p["args"][0]["name"], set()).add((last(p["trait"]), fz(p["args"][1:])))
    return out


def adt_roles(prog):
    """(adt path, generic position) -> role, from the bounds used by all impls of the type"""
    out = {}
    for i in prog.d["impls"]:
        s = i["self"]
        if s["k"] != "adt" or s["path"] not in prog.adts:
            continue
        bs = bounds(i["preds"])
        for pos, a in enumerate(s["args"]):
            if a["k"] == "param":
                for t, targs in bs.get(a["name"], ()):
                    if t in ROLE:
                        out.setdefault((s["path"], pos), {})[ROLE[t]] = targs
    return out


class Entry:
    """one analysed step function"""

    def __init__(self, prog, b):
        self.prog, self.b = prog, b
        cg = [n for k, n in b["gen"] if k == "const"]
        self.I = I = Interp(prog, pos=cg)
        self.S = S = Steps(I, None)
        I.hooks.append(S.hook)
        self.gen = {n: (sym(n) if k == "const" else {"k": "param", "name": n, "idx": 0}) for k, n in b["gen"]}
        self.st = State()
        self.roles = {}       # array name -> role
        self.unknown = []
        self.byrole = {}
        bs = bounds(b["preds"])
        self.ar = adt_roles(prog)
        self.tys = [I.ty_sub(t, self.gen) for t in b["body"]["locals"][1:1 + b["body"]["argc"]]]
        self.args = [I.mat(self.st, t, "a%d" % i) for i, t in enumerate(self.tys, 1)]
        self.fns = []
        for i, t in enumerate(self.tys, 1):
            self.scan("a%d" % i, t["ty"] if t["k"] == "ref" else t, bs, 0)
        S.mats = set(self.roles) | set(self.unknown)
        # lengths: every buffer holds at least its nominal size
        for a, (rows, cols) in S.dims.items():
            if rows is not None:
                I.facts.append(ge0(fn("len", a) - rows * cols))

    def scan(self, name, t, bs, depth):
        I = self.I
        if depth > 4:
            return
        if t["k"] == "param":
            for tr, targs in sorted(bs.get(t["name"], ())):
                if tr in ROLE:
                    self.role(name, ROLE[tr], uz(targs))
                    return
                if tr in ("FnMut", "FnOnce", "Fn"):
                    self.fns.append(name)
                    return
                if tr in GROUND:
                    self.fns.append(name)
                    return
            return
        if t["k"] == "adt":
            a = self.prog.adts.get(t["path"])
            if not a or len(a["variants"]) != 1:
                return
            env = {}
            for (kind, n), x in zip(a["gen"], t["args"]):
                env[n] = I.cpoly(x, {}) if kind == "const" else x
            posof = {n: i for i, (k, n) in enumerate(a["gen"])}
            for f in a["variants"][0]["fields"]:
                ft = f["ty"]
                nm = "%s.%s" % (name, f["name"])
                if ft["k"] == "param":
                    actual = t["args"][posof[ft["name"]]]
                    before = len(self.roles)
                    self.scan(nm, actual, bs, depth + 1)
                    if len(self.roles) == before:
                        rr = self.ar.get((t["path"], posof[ft["name"]]), {})
                        if len(rr) == 1:
                            self.role(nm, list(rr)[0], None)
                        elif actual["k"] == "param":
                            self.unknown.append(nm)
                elif ft["k"] == "adt" and ft["path"] in self.prog.adts:
                    self.scan(nm, I.ty_sub(ft, env), bs, depth + 1)

    def role(self, name, role, targs):
        I = self.I
        self.roles[name] = role
        self.byrole.setdefault(role, []).append(name)
        d = (None, None)
        if targs is not None:
            ds = [I.cpoly(x, {}) for x in targs if x["k"] in ("cparam", "cval", "cpoly")]
            tr = role
            sq = {"A", "P", "Q", "Qc", "R", "scratch:tempP", "scratch:S", "scratch:Sinv", "scratch:KHP"}
            vec = {"x", "u", "z", "scratch:px", "scratch:y"}
            if tr in sq and ds:
                d = (ds[0], ds[0])
            elif tr in vec and ds:
                d = (ds[0], ONE)
            elif len(ds) >= 2:
                d = (ds[0], ds[1])
        self.S.dims[name] = d

    def run(self):
        self.ret = self.I.run_body(self.st, self.b, self.gen, self.args)
        return self

    def one(self, role):
        v = self.byrole.get(role, [])
        if len(v) != 1:
            raise Undecided("%d matrices in role %s" % (len(v), role))
        return v[0]

    def v(self, role):
        return var(self.one(role))

    def final(self, name):
        return self.S.norm(self.st.arrs.get(name, ("init", name)), self.S.dims.get(name, (None, None)))

    def cmp(self, assume=()):
        from .cond import Compare
        return Compare(self.I, self.S.dims, assume, self.roles)


def picky(t):
    return any(f[0] in ("op", "opt") and (f[1] in ("pick", "elem") or f[1] == "if" and (picky(f[3]) or picky(f[4]))) for f in factors(t))


def is_raw(f):
    return f[0] in ("op", "opt") and f[1] == "raw"


def has_raw(t):
    return any(is_raw(f) or (f[0] in ("op", "opt") and f[1] == "if" and (has_raw(f[3]) or has_raw(f[4]))) for f in factors(t))


def expand(t):
    """element-level states replaced by what was recognised in them"""
    from .cond import tmap

    def ff(f):
        if is_raw(f) and f[4] is not None:
            x = expand(f[4])
            return mtr(x) if f[0] == "opt" else x
        if f[0] in ("op", "opt") and f[1] in ("if", "pick"):
            return ((((f[:3] + (expand(f[3]), expand(f[4])) + f[5:]),), ONE),)
        return None
    return tmap(t, ff)


def opaque(t):
    """parts of a term about which nothing is known"""
    return [f for f in factors(t) if f[0] in ("op", "opt", "tr") and not str(f[1]).startswith(("user:", "after:"))] + [c for c in coefs(t) if not known(c)]


def coefs(t):
    for w, c in t:
        if c.const() is None:
            yield c
        for f in w:
            if f[0] in ("inv", "chol", "cholt"):
                yield from coefs(f[1])


def known(p):
    for a in subterms(p):
        if a[0] == "fn" and a[1] not in ("recip", "sqrt", "abs", "cnt", "min", "max0"):
            return False
        if a[0] == "rd" and a[1][0] not in ("init", "mx"):
            return False
    return True


# ------------------------------------------------------------------ step specifications
def s_predict(e):
    A, x, Pm, Qm = e.v("A"), e.v("x"), e.v("P"), e.v("Q")
    return {"x": mmulm(A, x), "P": madd(mmulm(mmulm(A, Pm), mtr(A)), Qm)}


def lam(e):
    k = [e.I.as_poly(a) for a, t in zip(e.args, e.tys) if t["k"] == "param" and t["name"] not in fnparams(e)]
    if len(k) != 1:
        raise Undecided("tuning factor parameter")
    return fn("recip", k[0] * k[0])


def fnparams(e):
    return {n for n, bs in bounds(e.b["preds"]).items() for t, _ in bs if t in ("FnMut", "FnOnce", "Fn")}


def s_predict_tuned(e):
    A, x, Pm, Qm = e.v("A"), e.v("x"), e.v("P"), e.v("Q")
    return {"x": mmulm(A, x), "P": madd(mscale(mmulm(mmulm(A, Pm), mtr(A)), lam(e)), Qm)}


def user(e, ins):
    if len(e.fns) < 1:
        raise Undecided("no function argument")
    return ((((("op", "user:" + e.fns[-1], 0, tuple(ins)),)), ONE),)


def s_predict_nl(e):
    d = s_predict(e)
    d["x"] = user(e, [e.v("x")])
    d["!user"] = [e.v("x")]
    return d


def s_predict_tuned_nl(e):
    d = s_predict_tuned(e)
    d["x"] = user(e, [e.v("x")])
    d["!user"] = [e.v("x")]
    return d


def s_control(e):
    x, Pm, u, Bm, Qc = e.v("x"), e.v("P"), e.v("u"), e.v("B"), e.v("Qc")
    return {"x": madd(x, mmulm(Bm, u)), "P": madd(Pm, mmulm(mmulm(Bm, Qc), mtr(Bm)))}


def update(e, y):
    x, Pm, H, R_ = e.v("x"), e.v("P"), e.v("H"), e.v("R")
    S_ = madd(mmulm(mmulm(H, Pm), mtr(H)), R_)
    K_ = mmulm(mmulm(Pm, mtr(H)), ((((("inv", S_),)), ONE),))
    return {"x": madd(x, mmulm(K_, y)), "P": madd(Pm, mmulm(K_, mmulm(H, Pm)), -ONE), "!pd": S_}


def s_correct(e):
    return update(e, madd(e.v("z"), mmulm(e.v("H"), e.v("x")), -ONE))


def s_correct_nl(e):
    d = update(e, madd(e.v("z"), user(e, [e.v("x")]), -ONE))
    d["!user"] = [e.v("x")]
    return d


def delegated(key, closure=False):
    def f(e):
        x, Pm = e.one("x"), e.one("P")
        args = [e.fns[0], (x, var(x)), (Pm, var(Pm))]
        if closure:
            args.append(e.fns[1])
        return {"!delegate": (key, tuple(args)), "x": ((((("op", "after:" + key, 0, 1),)), ONE),), "P": ((((("op", "after:" + key, 1, 1),)), ONE),)}
    return f


# kind -> (specification, inherent method name, trait::method entries, role that identifies the type)
STEPS = {
    "predict": (s_predict, ["predict"], [("KalmanFilterPredict", "predict")]),
    "predict_tuned": (s_predict_tuned, ["predict_tuned"], []),
    "predict_nonlinear": (s_predict_nl, ["predict_nonlinear"], [("KalmanFilterNonlinearPredict", "predict_nonlinear")]),
    "predict_tuned_nonlinear": (s_predict_tuned_nl, ["predict_tuned_nonlinear"], []),
    "control": (s_control, ["apply_control"], [("KalmanFilterControlApplyToFilter", "apply_to")]),
    "control_delegate": (delegated("KalmanFilterControlApplyToFilter::apply_to"), ["control"], [("KalmanFilterApplyControl", "control")]),
    "correct": (s_correct, ["correct@RegularObservation"], [("KalmanFilterObservationCorrectFilter", "correct")]),
    "correct_delegate": (delegated("KalmanFilterObservationCorrectFilter::correct"), ["correct@RegularKalman"], [("KalmanFilterUpdate", "correct")]),
    "correct_nonlinear": (s_correct_nl, ["correct_nonlinear@ExtendedObservation"], [("KalmanFilterNonlinearObservationCorrectFilter", "correct_nonlinear")]),
    "correct_nl_delegate": (delegated("KalmanFilterNonlinearObservationCorrectFilter::correct_nonlinear", True), ["correct_nonlinear@ExtendedKalman"], [("KalmanFilterNonlinearUpdate", "correct_nonlinear")]),
}


def entries(prog, kind):
    """[(body, label)] inherent and trait entry points of one step kind"""
    _, inh, trs = STEPS[kind]
    out = []
    for m in inh:
        name, _, ty = m.partition("@")
        for b in prog.d["bodies"]:
            im = prog.impls.get(b.get("impl"))
            if b["name"] == name and im and "trait" not in im and b["kind"] == "AssocFn" and b.get("body"):
                if im["self"]["k"] == "adt" and (not ty or last(im["self"]["path"]) == ty):
                    out.append((b, "inherent"))
    for t, m in trs:
        out += [(b, "trait") for b, im in prog.trait_methods(t, m)]
    return out


def check_step(prog, kind, what=("spec", "frame", "fresh"), only=None):
    specf, inh, trs = STEPS[kind]
    es = entries(prog, kind)
    out = []
    for m in inh:
        name = m.split("@")[0]
        if only in (None, "inherent") and not any(l == "inherent" and b["name"] == name for b, l in es):
            out.append(Goal("step %s: inherent %s missing" % (kind, m), VIOLATED, "minikalman", "no inherent method %s" % m, "step present"))
    for t, m in trs:
        if only in (None, "trait") and not any(l == "trait" for b, l in es):
            out.append(Goal("step %s: %s::%s missing" % (kind, t, m), VIOLATED, "minikalman", "no implementation of %s::%s" % (t, m), "step present"))
    for b, l in es:
        if only and l != only:
            continue
        out += check_entry(prog, kind, b, specf, what)
    return out


class Loopback(Exception):
    pass


def check_entry(prog, kind, b, specf, what):
    where = "%s (%s)" % (b["path"].replace("minikalman::", ""), short(b["span"]))
    base = "%s: %s" % (kind, b["path"].replace("minikalman::", ""))
    rule = "matrix equation of the step"
    out = []
    try:
        e = Entry(prog, b)
        want = specf(e)
        e.run()
    except Undecided as x:
        if isinstance(x, Endless):
            # an entry that only forwards to itself never returns
            return [Goal(base, VIOLATED, where, str(x), rule)]
        return [Goal(base, UNDECIDED, where, str(x), rule)]
    names = {n: r for n, r in e.roles.items()}
    if e.ret is None:
        return [Goal(base, VIOLATED, where, "never returns normally", rule)]
    hard = [n for n in e.I.notes if not n.startswith("uninterpreted")]
    assume = []
    if "!pd" in want:
        assume.append(("b", "pd", want["!pd"]))
    bad = bool(hard)

    def weak(v, det):
        """after an unmodelled construct nothing definite is claimed"""
        if v == HOLDS or not bad:
            return v, det
        return UNDECIDED, det + "; " + hard[0]
    finals = {}
    try:
        for n, r in e.roles.items():
            if not r.startswith("scratch"):
                finals[r] = e.final(n)
        unk = {n: e.final(n) for n in e.unknown}
    except Undecided as x:
        return [Goal(base, UNDECIDED, where, str(x), rule)]
    if "spec" in what:
        for r in ("x", "P"):
            v, det = weak(*e.cmp(assume).compare(finals[r], want[r]))
            out.append(Goal("%s: %s" % (base, r), v, where, ("%s' = %s" % (r, mshow(want[r], names))) if v == HOLDS else "%s' %s" % (r, det), rule))
        if "!user" in want:
            us = [v for v in e.S.events if v["kind"] == "user"]
            v, det = weak(*calls(e, us, lambda x: [list(x["ins"])], [want["!user"]], names))
            out.append(Goal("%s: user function called once with the current state" % base, v, where, det, rule))
        if "!delegate" in want:
            ds = [v for v in e.S.events if v["kind"] == "delegate"]
            v, det = weak(*calls(e, ds, lambda x: [x["fn"], x["args"]], list(want["!delegate"]), names))
            out.append(Goal("%s: delegates exactly once" % base, v, where, det, rule))
        elif any(v["kind"] == "delegate" for v in e.S.events):
            out.append(Goal("%s: no foreign call" % base, UNDECIDED, where, "calls %s" % [v["fn"] for v in e.S.events], rule))
    if "frame" in what:
        for n, r in e.roles.items():
            if r in INPUTS:
                v, det = weak(*e.cmp().compare(finals[r], var(n)))
                out.append(Goal("%s: %s unchanged" % (base, r), v, where, "" if v == HOLDS else "%s %s" % (r, det), "inputs keep their contents"))
        for n in e.unknown:
            v, det = weak(*e.cmp().compare(unk[n], var(n)))
            out.append(Goal("%s: field %s unchanged" % (base, n), v, where, "" if v == HOLDS else "%s %s" % (n, det), "inputs keep their contents"))
    if "fresh" in what:
        for r in ("x", "P"):
            v, det = weak(*fresh_of(e, finals[r], r))
            out.append(Goal("%s: %s independent of scratch contents" % (base, r), v, where, det, "no value from a temporary buffer reaches x or P before it is overwritten"))
    e.summary = dict(e.S.used)
    return out


def calls(e, evs, desc, want, names):
    """exactly one call, under every condition, with the required arguments"""
    def args(v):
        d = desc(v)
        return d == want
    wrong = [v for v in evs if not args(v)]
    if len(evs) == 1 and not evs[0]["conds"]:
        if not wrong:
            return HOLDS, ""
        return VIOLATED, "called with %s" % str(desc(evs[0]))[:200]
    if not evs:
        return VIOLATED, "never called"
    sure = [v for v in evs if not v["conds"]]
    if len(sure) > 1:
        return VIOLATED, "called %d times" % len(sure)
    det = "%d calls, under %s" % (len(evs), [[show(c) for c in v["conds"]] for v in evs])
    if len(evs) == 1 and e.cmp().realisable(evs[0]["conds"]):
        return VIOLATED, det
    if not wrong and not sure:
        # exclusive and exhaustive alternatives
        cs = [mk_and(list(v["conds"])) for v in evs]
        if mk_or(cs) == T and all(mk_and([x, y]) == F for i, x in enumerate(cs) for y in cs[:i]):
            return HOLDS, ""
    return UNDECIDED, det


def fresh_of(e, t, r):
    """x and P must not depend on what a temporary buffer held before"""
    from .cond import TooMany, show_lit

    def scratch(x):
        return {e.roles.get(n) for n in names_in(x) if e.roles.get(n, "").startswith("scratch")}
    k = e.cmp()
    if has_raw(t):
        # elementwise results: what they are made of, including loops
        bufs = {n for n in deps(e.I, t) if e.roles.get(n, "").startswith("scratch")}
        if not bufs:
            return HOLDS, ""
        w = k.varies(t, bufs)
        det = "%s depends on earlier contents of %s" % (r, ", ".join(sorted(e.roles[n] for n in bufs)))
        return (VIOLATED, det + " (%s)" % pit.witness(w)) if w else (UNDECIDED, det)
    try:
        ls = k.leaves(t)
    except TooMany:
        return UNDECIDED, "too many combinations of conditions"
    v, det = HOLDS, ""
    for case, x in ls:
        st = scratch(x)
        if not st:
            continue
        det = "%s%s depends on earlier contents of %s" % ("when %s, " % case.show() if case.lits else "", r, ", ".join(sorted(st)))
        if case.understood():
            return VIOLATED, det
        v = UNDECIDED
    if len({case.norm(x) for case, x in ls}) > 1:
        for case, x in ls:
            st = scratch(tuple(case.lits))
            if st:
                return (VIOLATED if case.understood() else UNDECIDED), "%s depends on earlier contents of %s through a condition (%s)" % (r, ", ".join(sorted(st)), case.show())
    return v, det


def deps(I, x, seen=None):
    """arrays whose initial contents a term may depend on, loops included"""
    seen = {} if seen is None else seen
    out = set()
    if id(x) in seen or not isinstance(x, (tuple, Poly)) or not x:
        return out
    seen[id(x)] = x
    if isinstance(x, Poly):
        for m, _ in x.t:
            for a, _ in m:
                out |= deps(I, a, seen)
        return out
    if len(x) == 2 and x[0] in ("v", "vt", "init") and isinstance(x[1], str):
        out.add(x[1])

    def more(k, ys):
        if k not in seen:
            seen[k] = k
            for y in ys:
                if y is not None:
                    out.update(deps(I, y, seen))
    if x[0] == "cur" and x[1] in I.loops:
        L = I.loops[x[1]]
        more(("L", x[1]), list(L.init.values()) + list(L.body.values()) + [L.N] + [c for cs, _ in L.aborts for c in cs])
    if x[0] == "fn" and x[1] == "carry" and x[2] in I.REC:
        more(("R", x[2]), I.REC[x[2]][:2])
    if x[0] == "sym" and x[1] in I.SOL:
        more(("S", x[1]), [I.SOL[x[1]]])
    for y in x:
        out |= deps(I, y, seen)
    return out


def names_in(x):
    """array names occurring in a term or condition"""
    if isinstance(x, Poly):
        for m, _ in x.t:
            for a, _ in m:
                yield from names_in(a)
    elif isinstance(x, tuple):
        if len(x) == 2 and x[0] in ("v", "vt", "init") and isinstance(x[1], str):
            yield x[1]
        for y in x:
            if isinstance(y, (tuple, Poly)):
                yield from names_in(y)


def rename(x, m):
    """array names -> roles, everywhere in a term"""
    if isinstance(x, str):
        return m.get(x, x)
    if isinstance(x, Poly):
        return subst(x, {k: sym(v) for k, v in m.items() if k in free_syms(x)})
    if isinstance(x, tuple):
        return tuple(rename(y, m) for y in x)
    return x


def check_dispatch(prog):
    """a trait entry point has the same effect as the inherent one"""
    out = []
    rule = "trait method and inherent method of the same step have the same effect"
    for kind, (specf, inh, trs) in STEPS.items():
        if not trs or not inh:
            continue
        es = entries(prog, kind)
        base = [b for b, l in es if l == "inherent"]
        for t, m in trs:
            if not any(l == "trait" for b, l in es):
                out.append(Goal("step %s: %s::%s missing" % (kind, t, m), VIOLATED, "minikalman", "no implementation of %s::%s" % (t, m), rule))
        ref = None
        for b, l in sorted(es, key=lambda x: x[1]):
            where = "%s (%s)" % (b["path"].replace("minikalman::", ""), short(b["span"]))
            key = "%s: %s" % (kind, b["path"].replace("minikalman::", ""))
            try:
                e = Entry(prog, b).run()
                if e.ret is None:
                    if l == "trait":
                        out.append(Goal(key, VIOLATED, where, "never returns", rule))
                    continue
                nm = {n: r for n, r in e.roles.items()}
                nm.update({f: "fn%d" % i for i, f in enumerate(e.fns)})
                fin = {r: rename(e.final(n), nm) for n, r in e.roles.items() if not r.startswith("scratch")}
                ev = [rename(tuple(sorted((k, v) for k, v in x.items() if k != "sp")), nm) for x in e.S.events]
                hard = [n for n in e.I.notes if not n.startswith("uninterpreted")]
            except Undecided as x:
                if isinstance(x, Endless):
                    out.append(Goal(key, VIOLATED, where, str(x), rule))
                else:
                    out.append(Goal(key, UNDECIDED, where, str(x), rule))
                continue
            if l == "inherent":
                ref = (fin, ev, key)
                continue
            if ref is None:
                out.append(Goal(key, UNDECIDED, where, "no inherent counterpart analysed", rule))
                continue
            from .cond import Compare
            k = Compare(e.I, {nm.get(n, n): d for n, d in e.S.dims.items()})
            v, det = HOLDS, "same as %s" % ref[2]
            for r in fin:
                if r in ref[0] and fin[r] != ref[0][r]:
                    v1, d1 = k.compare(fin[r], ref[0][r])
                    if v1 != HOLDS and (v == HOLDS or v1 == VIOLATED):
                        v, det = v1, "%s' %s (inherent)" % (r, d1)
            if v == HOLDS and ev != ref[1]:
                v, det = VIOLATED, "different calls"
            if hard and v == VIOLATED:
                v = UNDECIDED
            out.append(Goal(key, v, where, det, rule))
    return out


def as_s(p):
    a = as_atom(p) if p is not None else None
    return a[1] if a and a[0] == "sym" else None
