"""Comparison of matrix terms that depend on conditions.

A step may choose between results on a condition (an input that is zero, a dimension that is
one, a factorisation that failed).  Both sides of an equation are expanded into leaves, one per
consistent combination of conditions; what a leaf's conditions say about the data (a matrix
that is zero, a scalar with a known value, dimensions that are one) is used before comparing.
A leaf that differs is a violation when its conditions are understood and can occur."""
from .poly import *
from .poly import atom as patom
from .fm import Ctx
from .arrays import Q, equal, canon, first_ite, deep_has
from .goals import HOLDS, VIOLATED, UNDECIDED
from .interp import Undecided
from . import steps as SS
from . import pit

MAXLEAVES = 96


class TooMany(Exception):
    pass


def is_op(f, name=None):
    return f[0] in ("op", "opt") and (name is None or f[1] == name)


def tmap(t, ff, cf=None):
    """rebuild a term; ff(factor) -> term or None; cf(coefficient) -> coefficient"""
    out = ()
    for w, c in t:
        c2 = cf(c) if cf else c
        prod = (((), c2),) if c2 != ZERO else ()
        for f in w:
            r = ff(f)
            if r is None:
                g = fmap(f, ff, cf)
                r = (((g,), ONE),)
            prod = SS.mmulm(prod, r)
        out = SS.madd(out, prod)
    return out


def fmap(f, ff, cf):
    if f[0] in ("inv", "chol", "cholt"):
        return (f[0], tmap(f[1], ff, cf))
    if is_op(f, "invert_l"):
        return (f[0], f[1], tmap(f[2], ff, cf))
    if is_op(f) and str(f[1]).startswith("user:"):
        return f[:3] + (tuple(tmap(x, ff, cf) if not (x and x[0] == "val") else x for x in f[3]),)
    return f


def dnf(c, cap=16):
    """list of literal lists"""
    if c == T:
        return [[]]
    if c == F:
        return []
    if c[0] == "or":
        out = []
        for x in c[1]:
            out += dnf(x, cap)
        if len(out) > cap:
            raise TooMany()
        return out
    if c[0] == "and":
        out = [[]]
        for x in c[1]:
            d = dnf(x, cap)
            out = [a + b for a in out for b in d]
            if len(out) > cap:
                raise TooMany()
        return out
    return [[c]]


class Case:
    """one consistent combination of conditions"""

    def __init__(self, cmp, lits):
        self.cmp = cmp
        self.lits = list(lits)
        self.cx = Ctx(list(cmp.I.facts) + [l for l in lits if l[0] in ("ge0", "eq0", "ne0")], cmp.I.pos)
        self._facts = None

    def ok(self):
        if self.cx.infeasible():
            return False
        sgn = {}
        for l in self.lits:
            g = sgnset(l)
            if g is None:
                continue
            k, s = g
            sgn[k] = sgn.get(k, frozenset("-0+")) & s
            if not sgn[k]:
                return False
        seen = set(self.lits)
        return not any(neg(l) in seen for l in self.lits)

    def plus(self, lits):
        return Case(self.cmp, self.lits + [l for l in lits if l not in self.lits])

    def decided(self, c):
        """T / F / None"""
        if c in (T, F):
            return c
        if c[0] == "and":
            ds = [self.decided(x) for x in c[1]]
            return F if F in ds else T if all(d == T for d in ds) else None
        if c[0] == "or":
            ds = [self.decided(x) for x in c[1]]
            return T if T in ds else F if all(d == F for d in ds) else None
        if c[0] in ("ge0", "eq0", "ne0"):
            if self.cx.entails(c):
                return T
            if self.cx.entails(neg(c)):
                return F
            return None
        n = False
        if c[0] == "not":
            n, c = True, c[1]
        r = None
        if c in self.lits:
            r = T
        elif neg(c) in self.lits:
            r = F
        elif c[0] == "b" and c[1] == "pd":
            for a in self.cmp.assume:
                if a[0] == "b" and a[1] == "pd" and self.eq(c[2], a[2]):
                    r = T
        else:
            if not self.plus([c]).ok():
                r = F
            elif not self.plus([neg(c)]).ok():
                r = T
        return r if r is None or not n else neg(r)

    # ------------------------------------------------------ what the conditions say
    def facts(self):
        """(zero terms, scalar substitution)"""
        if self._facts is not None:
            return self._facts
        zs, sub = [], {}
        self._facts = (zs, sub)
        for l in self.lits:
            if l[0] == "eq":
                d = l[1] - l[2]
                z = self.zero_of(d)
                if z is not None:
                    zs.append(z)
                for a in d.atoms():
                    if a[0] == "sym" and a[1] not in self.cmp.I.pos:
                        k = d.coeff(a)
                        if k and k[0].const() in (1, -1) and not mentions(k[1], a[1]):
                            sub[a[1]] = -k[1] * k[0].const()
                            break
            else:
                z = self.zero_scan(l)
                if z is not None:
                    zs.append(z)
        return self._facts

    def state(self, S):
        """(term, dims) of a readable state"""
        if S[0] == "init":
            d = self.cmp.dims.get(S[1])
            return (SS.var(S[1]), d) if d and d[0] is not None else None
        if S[0] == "mx":
            return (S[1], S[2]) if S[2] and S[2][0] is not None else None
        return None

    def scalar(self, S):
        x = self.state(S)
        if x and self.cx.entails(eq0(x[1][0] - 1)) and self.cx.entails(eq0(x[1][1] - 1)):
            return x[0]
        return None

    def zero_of(self, d):
        """matrix that is zero when the number d is zero"""
        if len(d.t) == 1 and len(d.t[0][0]) == 1:
            a, e = d.t[0][0][0]
            if a[0] == "fn" and a[1] in ("abs", "sqrt") and isinstance(a[2], Poly):
                return self.zero_of(a[2])
            if a[0] == "rd":
                return self.scalar(a[1])
            if a[0] == "sum":
                # a sum of squares or magnitudes over the whole matrix
                b = a[3]
                if len(b.t) == 1 and b.t[0][1] > 0 and len(b.t[0][0]) == 1:
                    x, ex = b.t[0][0][0]
                    if x[0] == "fn" and x[1] == "abs":
                        y = as_atom(x[2])
                    else:
                        y = x if ex % 2 == 0 else None
                    if y and y[0] == "rd":
                        return self.covered(y, [(a[1], a[2])])
        return None

    def covered(self, rd, binders):
        st = self.state(rd[1])
        if st is None:
            return None
        (R, C) = st[1]
        e = rd[2]
        if len(binders) == 1:
            k, n = binders[0]
            if e == sym(k) and self.cx.entails(ge0(n - R * C)):
                return st[0]
        if len(binders) == 2:
            for (i, n), (j, m) in (binders, binders[::-1]):
                if e == sym(i) * C + sym(j) and self.cx.entails(ge0(n - R)) and self.cx.entails(ge0(m - C)):
                    return st[0]
        return None

    def scan(self, l):
        """not exists i<n.. : read != 0  ->  (read, binders)"""
        if l[0] == "not" and l[1][0] == "b" and l[1][1] == "exists":
            bs = []
            c = l[1]
            while c[0] == "b" and c[1] == "exists":
                bs.append((c[2], c[3]))
                c = c[4]
            if c[0] == "not" and c[1][0] == "eq":
                d = c[1][1] - c[1][2]
                if len(d.t) == 1 and len(d.t[0][0]) == 1 and d.t[0][0][0][0][0] == "rd":
                    return d.t[0][0][0][0], bs
        return None

    def zero_scan(self, l):
        x = self.scan(l)
        return self.covered(*x) if x else None

    # ------------------------------------------------------ normal form in this case
    def norm(self, t):
        zs, sub = self.facts()
        t = self.scal(t)
        if sub:
            t = tmap(t, lambda f: None, lambda c: canon(subst(c, sub), self.cx))
        else:
            t = tmap(t, lambda f: None, lambda c: c if c.const() is not None else canon(c, self.cx))
        if zs:
            for _ in range(12):
                u = self.rewrite(t, zs)
                if u == t:
                    break
                t = u
        return t

    def rewrite(self, t, zs):
        rules = []
        for z in zs:
            for y in (z, SS.mtr(z)):
                y = self.scal(y)
                if not y:
                    continue
                w, c = max(y, key=lambda x: len(x[0]))
                if c.const() not in (1, -1) or not w:
                    continue
                rules.append((w, SS.mscale(tuple(x for x in y if x[0] != w), P(-c.const()))))

        def rw(t):
            out = ()
            for w, c in t:
                w2 = tuple(self.inner(f, rw) if f[0] in ("inv", "chol", "cholt") else f for f in w)
                done = False
                for lw, rhs in rules:
                    n = len(lw)
                    for i in range(len(w2) - n + 1):
                        if w2[i:i + n] == lw:
                            x = SS.mmulm(SS.mmulm(((w2[:i], c),), rhs), ((w2[i + n:], ONE),))
                            out = SS.madd(out, x)
                            done = True
                            break
                    if done:
                        break
                if not done:
                    out = SS.madd(out, ((w2, c),))
            return out
        return rw(t)

    def inner(self, f, rw):
        return (f[0], rw(f[1]))

    # scalars commute ------------------------------------------------------
    def fdims(self, f):
        if f[0] == "v":
            return self.cmp.dims.get(f[1])
        if f[0] == "vt":
            d = self.cmp.dims.get(f[1])
            return d and (d[1], d[0])
        if f[0] in ("inv", "chol", "cholt"):
            return self.tdims(f[1])
        if SS.is_raw(f):
            return f[3] if f[0] == "op" else (f[3][1], f[3][0])
        return None

    def tdims(self, t):
        for w, c in t:
            if w:
                a, b = self.fdims(w[0]), self.fdims(w[-1])
                if a and b and a[0] is not None and b[1] is not None:
                    return (a[0], b[1])
        return None

    def one(self, d):
        return bool(d) and d[0] is not None and self.cx.entails(eq0(d[0] - 1)) and self.cx.entails(eq0(d[1] - 1))

    def scal(self, t):
        if not self.cmp.maybe_scalar(self):
            return t
        out = ()
        for w, c in t:
            front, rest = [], []
            for f in w:
                if f[0] in ("inv", "chol", "cholt"):
                    f = (f[0], self.scal(f[1]))
                if self.one(self.fdims(f)):
                    front.append({"vt": ("v",) + f[1:], "cholt": ("chol",) + f[1:]}.get(f[0], f))
                else:
                    rest.append(f)
            pre = ((tuple(front), ONE),)
            x = self.coef(c)
            x = SS.mmulm(pre, x)
            x = tuple((tuple(sorted(v, key=lambda f: aid(("w", f)))) + tuple(rest), e) for v, e in x)
            out = SS.madd(out, x)
        return out

    def coef(self, c):
        """coefficient polynomial -> sum of words of 1x1 matrices"""
        out = ()
        for m, k in c.t:
            x = (((), P(k)),)
            for a, e in m:
                y = None
                if a[0] == "rd":
                    y = self.scalar(a[1])
                elif a[0] == "fn" and a[1] == "recip" and isinstance(a[2], Poly):
                    b = as_atom(a[2])
                    if b and b[0] == "rd":
                        z = self.scalar(b[1])
                        if z is not None:
                            y = ((((("inv", self.scal(z)),)), ONE),)
                if y is None:
                    x = SS.mscale(x, Poly({((a, e),): 1}))
                else:
                    for _ in range(e):
                        x = SS.mmulm(x, self.scal(y))
            out = SS.madd(out, x)
        return out

    def eq(self, a, b):
        if a == b:
            return True
        a, b = self.norm(a), self.norm(b)
        if a == b:
            return True
        d = SS.madd(a, b, -ONE)
        return all(equal(c, ZERO, self.cx) for w, c in d)

    # ------------------------------------------------------ can this case occur?
    def understood(self):
        """every condition is one whose both outcomes can occur, independently of the equation"""
        for l in self.lits:
            if not self.lit_ok(l):
                return False
        return True

    def data_ok(self, p):
        """made of element reads of inputs and scalars"""
        for m, c in p.t:
            for a, e in m:
                if a[0] == "sym":
                    continue
                if a[0] == "rd" and a[1][0] in ("init", "mx"):
                    continue
                if a[0] == "fn" and a[1] in ("abs", "recip", "cnt", "eps") and all(not isinstance(x, Poly) or self.data_ok(x) for x in a[2:]):
                    continue
                return False
        return True

    def lit_ok(self, l):
        n = False
        if l[0] == "not":
            n, l0 = True, l[1]
        else:
            l0 = l
        if l[0] in ("ge0", "eq0", "ne0"):
            return all(SS.plain(a, self.cmp.I.pos) for a in l[1].atoms())
        if l0[0] == "b" and l0[1] == "pd":
            return True
        if l0[0] == "b" and l0[1] == "exists":
            if not n:
                x = self.scan(("not", l0))
                return x is not None and x[0][1][0] in ("init", "mx")
            x = self.scan(l)
            return x is not None and (len(x[1]) == 1 or self.covered(*x) is not None) and x[0][1][0] in ("init", "mx")
        if l0[0] in ("eq", "lt", "le"):
            d = l0[1] - l0[2]
            if l0[0] == "eq" and not n:
                # a single element or scalar with a fixed value
                nc = [m for m, c in d.t if m]
                return len(nc) in (1, 2) and all(len(m) == 1 and (m[0][0][0] in ("rd", "sym") or (m[0][0][0] == "fn" and m[0][0][1] == "abs")) for m in nc) and self.data_ok(d)
            return self.data_ok(d) and any(len(m) == 1 and m[0][0][0] in ("rd", "sym") for m, c in d.t)
        return False

    def show(self):
        return " and ".join(show_lit(l, self.cmp.names) for l in self.lits) or "always"


def show_lit(l, names):
    if l[0] == "position":
        return "depending on the position"
    if l[0] == "not":
        return "not (%s)" % show_lit(l[1], names)
    if l[0] == "b" and l[1] == "pd":
        return "%s positive definite" % SS.mshow(l[2], names)[:80]
    if l[0] == "b" and l[1] == "exists":
        return "some %s < %s with %s" % (l[2], show(l[3]), show_lit(l[4], names))
    s = show(l)
    for a, r in sorted((names or {}).items(), key=lambda x: -len(x[0])):
        s = s.replace(a + "[", r + "[")
    return s[:160]


def sgnset(l):
    """(polynomial, set of possible signs) of an order condition on data"""
    n = False
    if l[0] == "not":
        n, l = True, l[1]
    if l[0] not in ("eq", "lt", "le"):
        return None
    d = l[1] - l[2]
    s = {"eq": "0", "lt": "-", "le": "-0"}[l[0]]
    if d.t and d.t[-1][1] < 0:
        d = -d
        s = s.translate(str.maketrans("-+", "+-"))
    s = frozenset(s)
    return d, (frozenset("-0+") - s if n else s)


class Compare:
    def __init__(self, I, dims, assume=(), names=None):
        self.I = I
        self.dims = dims
        self.assume = list(assume)
        self.names = names or {}
        self.n = 0
        self._ms = {}

    def maybe_scalar(self, case):
        """some matrix is 1x1 in this case"""
        k = tuple(l for l in case.lits if l[0] in ("ge0", "eq0"))
        if not k:
            # without extra facts: only literal dimensions
            if "lit" not in self._ms:
                self._ms["lit"] = any(d and d[0] is not None and d[0].const() == 1 and d[1].const() == 1 for d in self.dims.values())
            return self._ms["lit"]
        if k not in self._ms:
            self._ms[k] = any(case.one(d) for d in set(self.dims.values()))
        return self._ms[k]

    # ------------------------------------------------------ conditions inside terms
    def cres(self, c, cx):
        """condition over initial and named contents"""
        q = Q(self.I)
        if c[0] == "not":
            return neg(self.cres(c[1], cx))
        if c[0] == "and":
            return mk_and([self.cres(x, cx) for x in c[1]])
        if c[0] == "or":
            return mk_or([self.cres(x, cx) for x in c[1]])
        if c[0] == "b" and c[1] == "exists":
            k, n = c[2], c[3]
            x = cx.plus(ge0(sym(k)), ge0(n - 1 - sym(k)))
            i = self.cres(c[4], x)
            if i == F:
                return F
            return c[:4] + (i,)
        if c[0] == "b":
            return c
        try:
            r = q.resolve_c(c, cx)
        except Undecided:
            return c
        return fold_cmp(r, cx)

    def find(self, t):
        for w, c in t:
            if c.const() is None:
                a = first_ite(c)
                if a is not None:
                    return ("coef", a)
            for f in w:
                if f[0] in ("inv", "chol", "cholt"):
                    r = self.find(f[1])
                elif is_op(f, "invert_l"):
                    r = self.find(f[2])
                elif is_op(f, "if"):
                    r = self.findc(f[2]) or ("if", f[2])
                elif is_op(f, "pick"):
                    r = ("pick", f[1:])
                elif is_op(f) and str(f[1]).startswith("user:"):
                    r = None
                    for x in f[3]:
                        if not (x and x[0] == "val"):
                            r = r or self.find(x)
                else:
                    r = None
                if r:
                    return r
        return None

    def findc(self, c):
        """a choice inside a condition that has to be made first"""
        if c[0] == "b" and c[1] == "pd":
            return self.find(c[2])
        if c[0] == "not":
            return self.findc(c[1])
        if c[0] in ("and", "or"):
            for x in c[1]:
                r = self.findc(x)
                if r:
                    return r
        return None

    def choose(self, t, what, val):
        """t with the choice made"""
        kind, key = what

        def cc(c):
            if c == key:
                return T if val else F
            if c[0] == "not":
                return neg(cc(c[1]))
            if c[0] == "and":
                return mk_and([cc(x) for x in c[1]])
            if c[0] == "or":
                return mk_or([cc(x) for x in c[1]])
            if c[0] == "b" and c[1] == "pd":
                return ("b", "pd", tmap(c[2], ff, cf))
            return c

        def ff(f):
            if is_op(f, "if"):
                tr = SS.mtr if f[0] == "opt" else (lambda x: x)
                c = cc(f[2]) if kind != "pick" else cc2(f[2])
                if c == T:
                    return tmap(tr(f[3]), ff, cf)
                if c == F:
                    return tmap(tr(f[4]), ff, cf)
                x = ((((("op", "if", c, tmap(f[3], ff, cf), tmap(f[4], ff, cf)),)), ONE),)
                return tr(x)
            if is_op(f, "pick") and kind == "pick" and f[1:] == key:
                tr = SS.mtr if f[0] == "opt" else (lambda x: x)
                return tmap(tr(f[3] if val else f[4]), ff, cf)
            return None

        def cc2(c):
            if c[0] == "b" and c[1] == "pd":
                return ("b", "pd", tmap(c[2], ff, cf))
            if c[0] == "not":
                return neg(cc2(c[1]))
            if c[0] in ("and", "or"):
                return (mk_and if c[0] == "and" else mk_or)([cc2(x) for x in c[1]])
            return c

        def cf(p):
            if kind == "coef":
                return rebuild(p, lambda a: (key[2] if val else key[3]) if a == key else None)
            return p
        return tmap(t, ff, cf)

    def leaves(self, t, case=None):
        """[(case, term)]"""
        case = case or Case(self, [])
        self.n += 1
        if self.n > MAXLEAVES * 4:
            raise TooMany()
        w = self.find(t)
        if w is None:
            return [(case, t)]
        if w[0] == "pick":
            if not w[1][4]:
                case = case.plus([("position", w[1][1])])
            return self.leaves(self.choose(t, w, True), case) + self.leaves(self.choose(t, w, False), case)
        c = self.cres(w[1] if w[0] == "if" else w[1][1], case.cx)
        d = case.decided(c)
        out = []
        for val, cond in ((True, c), (False, neg(c))):
            if d is not None and (d == T) != val:
                continue
            t2 = self.choose(t, w, val)
            if d is not None:
                out += self.leaves(t2, case)
                continue
            for lits in dnf(cond):
                k = case.plus(lits)
                if k.ok():
                    out += self.leaves(t2, k)
            if len(out) > MAXLEAVES:
                raise TooMany()
        return out

    def compare(self, got, want):
        """(verdict, detail)"""
        v, det = self.compare1(SS.expand(got), SS.expand(want))
        if v == UNDECIDED:
            # the whole, with every condition in it
            w = self.separated(got, want)
            if w is not None:
                return VIOLATED, "%s (%s)" % (det, pit.witness(w))
        return v, det

    def separated(self, got, want):
        try:
            return pit.fseparate(self.I, self.dims, self.assume, got, want)
        except pit.NoValue as x:
            self.why = str(x)
            return None

    def varies(self, t, bufs):
        """valuations that differ in these arrays only and give different results"""
        try:
            return pit.fseparate(self.I, self.dims, self.assume, t, t, bufs)
        except pit.NoValue as x:
            self.why = str(x)
            return None

    def compare1(self, got, want):
        self.n = 0
        try:
            ls = self.leaves(got)
            res = []
            for case, t in ls:
                for k2, w in self.leaves(want, case):
                    # conditions of the specification side refine the case
                    if k2 is not case:
                        for k3, t3 in self.leaves(t, k2):
                            res.append((k3, t3, w))
                    else:
                        res.append((case, t, w))
        except TooMany:
            return UNDECIDED, "too many combinations of conditions"
        worst, det = HOLDS, ""
        for case, t, w in res:
            if case.eq(t, w):
                continue
            a, b = case.norm(t), case.norm(w)
            # a common opaque part is fine only if the whole agrees
            op = SS.opaque(a) or SS.opaque(b)
            msg = "%s: becomes %s, required %s" % (case.show(), SS.mshow(a, self.names)[:260], SS.mshow(b, self.names)[:260])
            if case.understood() and not op and not self.agree(case, t, w):
                return VIOLATED, ("when " if case.lits else "") + msg
            worst, det = UNDECIDED, ("when " if case.lits else "") + msg
        return worst, det

    def agree(self, case, t, w):
        """no valuation separates the two although several satisfy the case's conditions"""
        try:
            x, n = pit.mseparate(self.I, self.dims, [l for l in case.lits], t, w)
        except pit.NoValue:
            return False
        return x is None and n >= 6

    def realisable(self, conds):
        """the conjunction of conditions can be false for a realisable reason (used for calls)"""
        c = mk_and([self.cres(x, Case(self, []).cx) for x in conds])
        try:
            for lits in dnf(neg(c)):
                k = Case(self, lits)
                if k.ok() and k.understood():
                    return True
        except TooMany:
            pass
        return False


def fold_cmp(c, cx):
    """decide comparisons of equal values"""
    n = False
    if c[0] == "not":
        n, c0 = True, c[1]
    else:
        c0 = c
    if c0[0] in ("eq", "lt", "le"):
        d = canon(c0[1] - c0[2], cx)
        k = d.const()
        if k is not None:
            r = {"eq": k == 0, "lt": k < 0, "le": k <= 0}[c0[0]]
            return T if r != n else F
    return c
