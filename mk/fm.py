"""Linear-inequality reasoning for index ranges (polyhedral domain, Fourier-Motzkin
elimination on small systems).  Non-linear monomials are treated as variables, with the
product of a bound and a positive parameter added as a lemma."""
import time
from .poly import Poly, P, ge0, neg, T, F, free_syms, rebuild
from fractions import Fraction

MAXC = 4000


class Undecided(Exception):
    pass


DEADLINE = None                # wall-clock time after which analyses give up (set by the runner)


SEARCH = 60                    # seconds one query may take
BUSY = []


def bounded(f):
    """one query does not use up the time of all others"""
    def g(*a, **k):
        global DEADLINE
        if BUSY or DEADLINE is None:
            return f(*a, **k)
        old = DEADLINE
        DEADLINE = min(old, time.time() + SEARCH)
        BUSY.append(f)
        try:
            return f(*a, **k)
        finally:
            DEADLINE = old
            BUSY.pop()
    return g


def clock():
    if DEADLINE is not None and time.time() > DEADLINE:
        raise Undecided("out of time")


class Ctx:
    """facts known to hold: integer conditions (conjunction); pos = names of symbols >= 1"""

    def __init__(self, facts=(), pos=()):
        self.pos = frozenset(pos)
        self.cs = []          # list of Poly >= 0
        self.nes = []         # list of Poly != 0
        self.others = set()   # opaque conditions known true
        self.eqs = []         # Poly == 0
        self._memo = {}
        for f in facts:
            self._add(f)

    def _add(self, f):
        k = f[0]
        if k == "T":
            return
        if k == "ge0":
            self.cs.append(f[1])
        elif k == "eq0":
            self.cs.append(f[1])
            self.cs.append(-f[1])
            self.eqs.append(f[1])
        elif k == "ne0":
            self.nes.append(f[1])
        elif k == "and":
            for x in f[1]:
                self._add(x)
        elif k == "or":
            live = [x for x in f[1] if not self.refutes(x)]
            if len(live) == 1:
                self._add(live[0])
            elif not live:
                self.cs.append(P(-1))
            else:
                self.others.add(("or", tuple(live)) if len(live) < len(f[1]) else f)
        else:
            self.others.add(f)

    def plus(self, *facts):
        c = Ctx((), self.pos)
        c.cs = list(self.cs)
        c.nes = list(self.nes)
        c.others = set(self.others)
        c.eqs = list(self.eqs)
        for f in facts:
            c._add(f)
        return c

    def tight(self, c):
        """like plus, turning an inequality that can only hold with equality into an equation"""
        out = []
        for x in (c[1] if c[0] == "and" else (c,)):
            if x[0] == "ge0" and self.entails(("ge0", -x[1])):
                x = ("eq0", x[1])
            elif x[0] == "ne0":
                # of two possible values, the other one
                for k in (1, -1):
                    if self.entails(("ge0", k * x[1])) and self.entails(("ge0", 1 - k * x[1])):
                        x = ("eq0", x[1] - k)
                        break
            out.append(x)
        return self.plus(*out)

    def infeasible(self, extra=(), depth=0):
        key = (tuple(extra), depth)
        if key in self._memo:
            return self._memo[key]
        clock()
        c = self.plus(*extra)
        for o in c.others:
            if o == F or neg(o) in c.others:
                self._memo[key] = True
                return True
        r = fm_infeasible(c.cs, self.pos)
        if not r and c.nes:
            # strengthen with disequalities at a bound: p!=0 and p>=0 => p>=1
            cs = list(c.cs)
            ch = False
            for p in c.nes:
                if fm_infeasible(cs + [-p - 1], self.pos):
                    cs.append(p - 1)
                    ch = True
                elif fm_infeasible(cs + [p - 1], self.pos):
                    cs.append(-p - 1)
                    ch = True
            if ch:
                r = fm_infeasible(cs, self.pos)
        if not r and depth < 2:
            # alternatives: every one of them has to fail
            for o in sorted((o for o in c.others if o[0] == "or" and len(o[1]) <= 4), key=lambda o: len(o[1]))[:2]:
                d = c.plus()
                d.others.discard(o)
                if all(d.infeasible((x,), depth + 1) for x in o[1]):
                    r = True
                    break
        self._memo[key] = r
        return r

    def entails(self, c):
        k = c[0]
        if k == "T":
            return True
        if k == "F":
            return self.infeasible()
        if k == "ge0":
            return self.infeasible((neg(c),))
        if k == "eq0":
            return self.infeasible((ge0(c[1] - 1),)) and self.infeasible((ge0(-c[1] - 1),))
        if k == "ne0":
            return self.infeasible((("eq0", c[1]),))
        if k == "and":
            return all(self.entails(x) for x in c[1])
        if k == "or":
            if any(self.entails(x) for x in c[1]):
                return True
            return self.infeasible(tuple(neg(x) for x in c[1]))
        return c in self.others

    def refutes(self, c):
        return self.entails(neg(c))


def lemmas(cs, pos):
    """multiply bounds by positive parameters where this produces monomials already present"""
    monos = set()
    for p in cs:
        for m, _ in p.t:
            if sum(e for _, e in m) >= 2:
                monos.add(m)
    if not monos:
        return []
    facs = set()
    for m in monos:
        for a, _ in m:
            facs.add(a)
    out = []
    seen = set(cs)
    for f in facs:
        fp = Poly({((f, 1),): 1})
        if not nonneg(f, cs, pos):
            continue
        for p in cs:
            if any(sum(e for _, e in m) >= 3 for m, _ in p.t):
                continue
            q = p * fp
            if q in seen:
                continue
            # keep when it introduces no monomial of degree>=2 outside the set
            if all(sum(e for _, e in m) < 2 or m in monos for m, _ in q.t):
                out.append(q)
                seen.add(q)
    return out


def nonneg(a, cs, pos):
    if a[0] == "sym" and a[1] in pos:
        return True
    if a[0] == "fn" and a[1] in ("cnt", "len", "max0"):
        return True
    for p in cs:
        # a - k >= 0, k>=0
        c = p.coeff(a)
        if c and c[0].const() == 1 and c[1].const() is not None and c[1].const() <= 0:
            return True
    return False


def fm_infeasible(polys, pos, split=4):
    base = list(dict.fromkeys(polys))
    if split:
        for p in base:
            for m, _ in p.t:
                for a, _ in m:
                    if a[0] == "fn" and a[1] in ("min", "max0"):
                        # both outcomes of the selection
                        x, y = (a[2], a[3]) if a[1] == "min" else (a[2], P(0))
                        lo, hi = (x, y) if a[1] == "min" else (y, x)
                        # value x when: min -> y >= x, max0 -> x >= 0
                        cases = ((x, hi - lo), (y, lo - hi)) if a[1] == "min" else ((x, x), (y, -x))
                        return all(fm_infeasible([rebuild(q, lambda z: v if z == a else None) for q in base] + [g], pos, split - 1) for v, g in cases)
    syms = set()
    todo = list(base)
    while todo:
        for m, _ in todo.pop().t:
            for a, _ in m:
                if a in syms:
                    continue
                syms.add(a)
                if a[0] == "fn" and a[1] == "div" and isinstance(a[2], Poly):
                    # q = floor(x/d):  0 <= x - d*q < d
                    A = Poly({((a, 1),): 1})
                    ex = [a[2] - a[3] * A, a[3] * A + a[3] - 1 - a[2]]
                    base += ex
                    todo += ex
    for a in syms:
        if a[0] == "sym" and a[1] in pos:
            base.append(Poly({((a, 1),): 1}) - 1)
        elif a[0] == "fn" and a[1] in ("cnt", "len", "max0"):
            base.append(Poly({((a, 1),): 1}))
            if a[1] in ("cnt", "max0"):
                # max(0,x) >= x
                base.append(Poly({((a, 1),): 1}) - a[2])
    base = list(dict.fromkeys(base))
    base += lemmas(base, pos)
    base += lemmas(base, pos)
    rows = []
    for p in base:
        d = {}
        c0 = 0
        for m, c in p.t:
            if m == ():
                c0 = c
            else:
                d[m] = c
        rows.append((d, c0))
    return _fm(rows)


def _norm(d, c):
    return (tuple(sorted(d.items(), key=lambda kv: hash(kv[0]))), c)


def _fm(rows):
    # rows: (dict var->coef, const): sum + const >= 0
    cur = {}

    def add(store, d, c):
        d = {k: v for k, v in d.items() if v != 0}
        if not d:
            return c < 0
        # tighten by gcd (integer rows)
        from math import gcd
        g = 0
        for v in d.values():
            g = gcd(g, abs(v))
        if g > 1:
            d = {k: v // g for k, v in d.items()}
            c = c // g  # floor: integer tightening
        key = frozenset(d.items())
        if key in store:
            if store[key][1] > c:
                store[key] = (d, c)
        else:
            store[key] = (d, c)
        return False

    for d, c in rows:
        if add(cur, dict(d), c):
            return True
    while True:
        # direct contradictions: row and its negation
        for key, (d, c) in cur.items():
            nk = frozenset((k, -v) for k, v in d.items())
            if nk in cur and cur[nk][1] + c < 0:
                return True
        vs = {}
        for d, _ in cur.values():
            for k, v in d.items():
                a, b = vs.get(k, (0, 0))
                vs[k] = (a + (v > 0), b + (v < 0))
        if not vs:
            return False
        v = min(vs, key=lambda k: vs[k][0] * vs[k][1])
        pos = [r for r in cur.values() if r[0].get(v, 0) > 0]
        ngs = [r for r in cur.values() if r[0].get(v, 0) < 0]
        nxt = {}
        for d, c in cur.values():
            if v not in d:
                if add(nxt, dict(d), c):
                    return True
        if len(nxt) + len(pos) * len(ngs) > MAXC:
            return False
        for d, c in pos:
            for e, f in ngs:
                a, b = d[v], -e[v]
                n = {}
                for k, x in d.items():
                    n[k] = n.get(k, 0) + x * b
                for k, x in e.items():
                    n[k] = n.get(k, 0) + x * a
                if add(nxt, n, c * b + f * a):
                    return True
        cur = nxt
