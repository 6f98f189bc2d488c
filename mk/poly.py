"""Normal forms: commutative polynomials over interned atoms, conditions, bounded sums.

The same polynomial type is used for machine integers (indices, lengths) and for matrix
elements.  Elements are compared in exact arithmetic (a commutative ring with uninterpreted
reciprocal and square root): rounding order is deliberately not part of the domain.

atoms (tuples, first item is the kind)
  ("sym", name)                       symbol
  ("rd", state, idx)                  element idx of array state (see arrays.py)
  ("sum", v, n, body)                 sum over v in [0,n) of body   (v canonical bound name)
  ("ite", cond, a, b)
  ("fn", name, args...)               uninterpreted function
conditions
  ("T",) ("F",) ("ge0",p) ("eq0",p) ("ne0",p)  integers
  ("le",x,y) ("lt",x,y) ("eq",x,y) ("b",name,...)  data dependent, ("not",c), ("and",(..)), ("or",(..))
"""
import itertools

_ids = {}
_fresh = itertools.count(1)


def aid(a):
    i = _ids.get(a)
    if i is None:
        i = _ids[a] = len(_ids)
    return i


class Poly:
    __slots__ = ("t", "h")

    def __init__(self, d):
        # d: dict mono -> int, mono: tuple of (atom, exp) sorted by atom id
        self.t = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: tuple((aid(a), e) for a, e in mc[0])))
        self.h = hash(self.t)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.h == o.h and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def __add__(self, o):
        o = P(o)
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        d = {}
        for m, c in self.t:
            for n, e in o.t:
                k = mmul(m, n)
                d[k] = d.get(k, 0) + c * e
        return Poly(d)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def atoms(self):
        return {a for m, _ in self.t for a, _ in m}

    def coeff(self, atom):
        """split as c1*atom + c0, None if not linear in the atom"""
        c1, c0 = {}, {}
        for m, c in self.t:
            d = dict(m)
            e = d.pop(atom, 0)
            if e == 0:
                c0[m] = c
            elif e == 1:
                c1[tuple(x for x in m if x[0] != atom)] = c
            else:
                return None
        return Poly(c1), Poly(c0)

    def __repr__(self):
        return show(self)


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda x: aid(x[0])))


def P(x):
    if isinstance(x, Poly):
        return x
    return Poly({(): x})


ZERO = P(0)
ONE = P(1)


def atom(a):
    return Poly({((a, 1),): 1})


def sym(n):
    return atom(("sym", n))


def fresh(pfx):
    return "%s~%d" % (pfx, next(_fresh))


def as_atom(p):
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1:
        return p.t[0][0][0][0]
    return None


def is_sym(p):
    a = as_atom(p)
    return a is not None and a[0] == "sym"


def fn(name, *args):
    return atom(("fn", name) + args)


# ---------------------------------------------------------------- conditions
T = ("T",)
F = ("F",)


def ge0(p):
    c = p.const()
    if c is not None:
        return T if c >= 0 else F
    return ("ge0", p)


def _sgn(p):
    # canonical sign for equations
    if p.t and p.t[-1][1] < 0:
        return -p
    return p


def flag(p, zero):
    """condition under which a choice between constants is (not) zero, or None"""
    if len(p.t) > 2:
        return None
    k, a, co = 0, None, 0
    for m, c in p.t:
        if m == ():
            k = c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "ite" and a is None:
            a, co = m[0][0], c
        else:
            return None
    if a is None:
        return None
    x, y = a[2], a[3]
    xs = [(z.const() if z.const() is not None else flag(z * co + k, zero)) for z in (x, y)]
    if xs[0] is None or xs[1] is None:
        return None
    xs = [z if isinstance(z, tuple) else T if (co * z + k == 0) == zero else F for z in xs]
    return mk_or([mk_and([a[1], xs[0]]), mk_and([neg(a[1]), xs[1]])])


def eq0(p):
    c = p.const()
    if c is not None:
        return T if c == 0 else F
    f = flag(p, True)
    if f is not None:
        return f
    return ("eq0", _sgn(p))


def ne0(p):
    c = p.const()
    if c is not None:
        return T if c != 0 else F
    f = flag(p, False)
    if f is not None:
        return f
    return ("ne0", _sgn(p))


def neg(c):
    k = c[0]
    if k == "T":
        return F
    if k == "F":
        return T
    if k == "ge0":
        return ge0(-c[1] - 1)
    if k == "eq0":
        return ne0(c[1])
    if k == "ne0":
        return eq0(c[1])
    if k == "not":
        return c[1]
    if k == "and":
        return mk_or([neg(x) for x in c[1]])
    if k == "or":
        return mk_and([neg(x) for x in c[1]])
    return ("not", c)


def mk_and(cs):
    out = []
    for c in cs:
        if c == F:
            return F
        if c == T or c in out:
            continue
        if c[0] == "and":
            for x in c[1]:
                if x not in out:
                    out.append(x)
        else:
            out.append(c)
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    for c in out:
        if neg(c) in out:
            return F
    return ("and", tuple(sorted(out, key=aid)))


def mk_or(cs):
    out = []
    for c in cs:
        if c == T:
            return T
        if c == F or c in out:
            continue
        if c[0] == "or":
            for x in c[1]:
                if x not in out:
                    out.append(x)
        else:
            out.append(c)
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    for c in out:
        if neg(c) in out:
            return T
    return ("or", tuple(sorted(out, key=aid)))


def mk_ite(c, a, b):
    if c == T or a == b:
        return a
    if c == F:
        return b
    if c[0] in ("ne0", "not"):
        c, a, b = neg(c), b, a
    # min-style integer conditions keep a canonical orientation
    if c[0] == "ge0":
        n = neg(c)
        if aid(n) < aid(c):
            c, a, b = n, b, a
    return atom(("ite", c, a, b))


def pull(p, X):
    """take the atom X out of selections in which both branches contain it equally"""
    def has(x):
        return any(a == X or (a[0] == "ite" and (has(a[2]) or has(a[3]))) for a in x.atoms()) if isinstance(x, Poly) else False

    def f(a):
        if a[0] == "ite" and (has(a[2]) or has(a[3])):
            x, y = rebuild(a[2], f), rebuild(a[3], f)
            i, j = x.coeff(X), y.coeff(X)
            if i and j and i[0] == j[0] and i[0].t:
                return i[0] * atom(X) + mk_ite(a[1], i[1], j[1])
            return mk_ite(a[1], x, y)
        return atom(a) if a[0] in ("sum", "rd", "fn", "sym") else None
    return rebuild(p, f) if has(p) else p


# ---------------------------------------------------------------- sums
def mk_sum(v, n, body):
    """sum_{v in [0,n)} body; v is a symbol name"""
    body = P(body)
    n = P(n)
    c = n.const()
    if c is not None and c <= 0:
        return ZERO
    if c == 1:
        return subst(body, {v: ZERO})
    out = ZERO
    vs = ("sym", v)
    for m, k in body.t:
        dep = tuple(x for x in m if mentions(x[0], v))
        ind = tuple(x for x in m if not mentions(x[0], v))
        outer = Poly({ind: k})
        if not dep:
            out = out + outer * fn("cnt", n)
            continue
        inner = Poly({dep: 1})
        d = depth(inner) + 1
        cv = "#%d" % d
        if v != cv:
            inner = subst(inner, {v: sym(cv)})
        out = out + outer * atom(("sum", cv, n, inner))
    return out


_depth = {}


def depth(x):
    """nesting depth of bound variables"""
    if isinstance(x, Poly):
        k = x
        if k in _depth:
            return _depth[k]
        r = 0
        for m, _ in x.t:
            for a, _ in m:
                r = max(r, depth(a))
        _depth[k] = r
        return r
    if isinstance(x, tuple):
        if x and x[0] == "sum":
            return max(int(x[1][1:]), depth(x[2]), depth(x[3]))
        if len(x) == 2 and x[0] == "sym":
            n = x[1]
            return int(n[1:]) if n[:1] == "#" else 0
        r = 0
        for y in x:
            if isinstance(y, (tuple, Poly)):
                r = max(r, depth(y))
        return r
    return 0


_ment = {}


def free_syms(x):
    if isinstance(x, Poly):
        r = _ment.get(x)
        if r is None:
            r = frozenset().union(*[free_syms(a) for m, _ in x.t for a, _ in m]) if x.t else frozenset()
            _ment[x] = r
        return r
    if isinstance(x, tuple):
        if not x:
            return frozenset()
        if x[0] == "sym" and len(x) == 2 and isinstance(x[1], str):
            return frozenset([x[1]])
        r = _ment.get(x)
        if r is None:
            if x[0] == "sum":
                r = (free_syms(x[3]) - {x[1]}) | free_syms(x[2])
            else:
                r = frozenset().union(*[free_syms(y) for y in x if isinstance(y, (tuple, Poly))])
            _ment[x] = r
        return r
    return frozenset()


def mentions(x, v):
    return v in free_syms(x)


def subst(x, m):
    """substitute symbols; m: name -> Poly"""
    if not m:
        return x
    fs = free_syms(x) if isinstance(x, (tuple, Poly)) else frozenset()
    if not any(k in fs for k in m):
        return x
    return rebuild(x, lambda a: m.get(a[1]) if a[0] == "sym" else None)


def rebuild(x, f):
    """bottom-up rebuild.  f(atom) -> Poly or None (None: recurse into the atom)."""
    if isinstance(x, Poly):
        out = ZERO
        for mono, c in x.t:
            t = P(c)
            for a, e in mono:
                t = t * (ratom(a, f) ** e)
            out = out + t
        return out
    if isinstance(x, tuple):
        return rtuple(x, f)
    return x


def ratom(a, f):
    r = f(a)
    if r is not None:
        return r
    k = a[0]
    if k == "sym":
        return atom(a)
    if k == "sum":
        nv = fresh("s")
        body = rebuild(subst(a[3], {a[1]: sym(nv)}), f)
        return mk_sum(nv, rebuild(a[2], f), body)
    if k == "ite":
        return mk_ite(rtuple(a[1], f), rebuild(a[2], f), rebuild(a[3], f))
    return simp_fn(rtuple(a, f))


def mk_div(p, q):
    """floor(p/q) for q >= 1"""
    if q == ONE:
        return p
    k = q.const()
    if k is not None and k > 0:
        m, r = {}, {}
        for mono, c in p.t:
            d, e = (c // k, c % k) if mono == () or c % k == 0 else (0, c)
            if d:
                m[mono] = d
            if e:
                r[mono] = e
        m, r = Poly(m), Poly(r)
        c = r.const()
        if c is not None:
            return m + c // k
        return m + atom(("fn", "div", r, q))
    return atom(("fn", "div", p, q))


def mk_rem(p, q):
    """p - q*floor(p/q)"""
    k = q.const()
    if k is not None and k > 0:
        return p - k * mk_div(p, q)
    return atom(("fn", "rem", p, q))


def recombine(p):
    """q*floor(x/q) + (x mod q) is x"""
    for a in p.atoms():
        if a[0] == "fn" and a[1] == "rem":
            k = p.coeff(a)
            if not k or k[0].const() is None:
                continue
            d = mk_div(a[2], a[3])
            r = k[1] - k[0] * a[3] * d + k[0] * a[2]
            if not (d.atoms() - a[2].atoms() - a[3].atoms()) & r.atoms() and d.atoms() & p.atoms():
                return r
    return p


def simp_fn(a):
    if a[0] == "fn" and a[1] == "div":
        return mk_div(a[2], a[3])
    if a[0] == "fn" and a[1] == "rem":
        return mk_rem(a[2], a[3])
    if a[0] == "fn" and a[1] == "cnt":
        c = a[2].const()
        if c is not None:
            return P(max(0, c))
    if a[0] == "fn" and a[1] in ("as_u8", "as_u16"):
        c = a[2].const()
        if isinstance(c, int):
            return P(c % (256 if a[1] == "as_u8" else 65536))
    return atom(a)


def rtuple(x, f):
    if not x:
        return x
    k = x[0]
    if k == "ge0":
        return ge0(rebuild(x[1], f))
    if k == "eq0":
        return eq0(rebuild(x[1], f))
    if k == "ne0":
        return ne0(rebuild(x[1], f))
    if k == "not" and len(x) == 2:
        return neg(rtuple(x[1], f))
    if k == "and":
        return mk_and([rtuple(y, f) for y in x[1]])
    if k == "or":
        return mk_or([rtuple(y, f) for y in x[1]])
    if k in ("sym", "T", "F"):
        if k == "sym":
            r = f(x)
            return x if r is None else r
        return x
    if k == "b" and len(x) == 5 and x[1] == "exists":
        n = rebuild(x[3], f).const()
        if n is not None and n <= 1:
            return F if n <= 0 else rtuple(subst(x[4], {x[2]: ZERO}), f)
    return tuple(rebuild(y, f) if isinstance(y, Poly) else (rtuple(y, f) if isinstance(y, tuple) else y) for y in x)


def deep_poly(x, g):
    """apply g to every polynomial inside x, innermost first"""
    if isinstance(x, Poly):
        out = ZERO
        for mono, c in x.t:
            t = P(c)
            for a, e in mono:
                t = t * (deep_poly(a, g) ** e)
            out = out + t
        return g(out)
    if isinstance(x, tuple) and x:
        k = x[0]
        if k == "sym":
            return atom(x)
        if k == "sum":
            nv = fresh("s")
            return mk_sum(nv, deep_poly(x[2], g), deep_poly(subst(x[3], {x[1]: sym(nv)}), g))
        if k == "ite":
            return mk_ite(deep_cond(x[1], g), deep_poly(x[2], g), deep_poly(x[3], g))
        return simp_fn(deep_cond(x, g))
    return x


def deep_cond(x, g):
    if not x:
        return x
    k = x[0]
    if k in ("ge0", "eq0", "ne0"):
        return {"ge0": ge0, "eq0": eq0, "ne0": ne0}[k](deep_poly(x[1], g))
    if k == "not" and len(x) == 2:
        return neg(deep_cond(x[1], g))
    if k in ("and", "or"):
        return (mk_and if k == "and" else mk_or)([deep_cond(y, g) for y in x[1]])
    if k in ("T", "F", "sym"):
        return x
    return tuple(deep_poly(y, g) if isinstance(y, Poly) else (deep_cond(y, g) if isinstance(y, tuple) else y) for y in x)


# ---------------------------------------------------------------- display
def show(x):
    if isinstance(x, Poly):
        if not x.t:
            return "0"
        ps = []
        for m, c in x.t:
            s = "*".join(show(a) + ("^%d" % e if e > 1 else "") for a, e in m)
            if not m:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%d*%s" % (c, s)
            ps.append(s)
        r = " + ".join(ps).replace("+ -", "- ")
        return r
    if isinstance(x, tuple):
        if not x:
            return "()"
        k = x[0]
        if k == "sym":
            return x[1]
        if k == "rd":
            return "%s[%s]" % (show_state(x[1]), show(x[2]))
        if k == "sum":
            return "Σ(%s<%s: %s)" % (x[1], show(x[2]), show(x[3]))
        if k == "ite":
            return "(%s ? %s : %s)" % (show(x[1]), show(x[2]), show(x[3]))
        if k == "fn":
            return "%s(%s)" % (x[1], ", ".join(show(y) for y in x[2:]))
        if k == "ge0":
            return "%s>=0" % show(x[1])
        if k == "eq0":
            return "%s==0" % show(x[1])
        if k == "ne0":
            return "%s!=0" % show(x[1])
        if k in ("le", "lt", "eq") and len(x) == 3:
            return "%s %s %s" % (show(x[1]), {"le": "<=", "lt": "<", "eq": "=="}[k], show(x[2]))
        if k == "not":
            return "!(%s)" % show(x[1])
        if k in ("and", "or"):
            return "(" + (" && " if k == "and" else " || ").join(show(y) for y in x[1]) + ")"
        return "<" + " ".join(show(y) for y in x) + ">"
    return str(x)


def show_state(s):
    if s[0] == "init":
        return str(s[1])
    if s[0] == "fin":
        return "%s'" % (s[1],)
    if s[0] == "loop":
        return "%s@after(L%s%s)" % (s[2], s[1], "".join("," + show(a) for a in s[3]))
    if s[0] == "cur":
        return "%s@during(L%s;%s%s)" % (s[2], s[1], show(s[4]), "".join("," + show(a) for a in s[3]))
    return show(s)
