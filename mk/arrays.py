"""Queries on array states: which write determines an element, and what value it holds.

Array states are produced by interp.py:
  ("init",a) | ("st",S,idx,val) | ("sel",c,S1,S2) | ("const",a,v) | ("cur",L,a,args,t)
("cur",...) is the array after t iterations of loop L.  An element query looks for the last
iteration whose write index equals the requested index (delinearisation by stride plus
unit-coefficient elimination, ranges decided by Fourier-Motzkin)."""
from .poly import *
from .poly import atom as patom
from .fm import Ctx, bounded
from .interp import Undecided, B


class Q:
    def __init__(self, I, named=None, fuel=6000):
        self.I = I
        self.named = dict(named or {})     # state -> name (reads are left at these states)
        self.final = None                  # (state, name) for promotion
        self.fuel = fuel
        self.stops = []
        self.memo = {}
        self.top = None
        self.depth = 0

    # ---------------------------------------------------------- helpers
    def L(self, lid):
        return self.I.loops[lid]

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided("array query budget exhausted")

    def inst(self, x, L, args, t):
        m = {p: a for p, a in zip(L.params, args)}
        m[L.t] = t
        return subst(self.I.norm(x), m)

    def body(self, L, arr):
        return self.I.norm(L.body.get(arr, self.base(L, arr)))

    def base(self, L, arr):
        return ("cur", L.id, arr, tuple(sym(p) for p in L.params), sym(L.t))

    def loop_facts(self, L, args, t, n=None):
        """facts that hold during iteration t of loop L"""
        fs = [ge0(t)]
        if L.N is not None:
            fs.append(ge0(self.inst(L.N, L, args, t) - 1 - t))
        for c in L.conds:
            fs.append(self.inst(c, L, args, t))
        P_ = L
        return fs

    # ---------------------------------------------------------- integer equations
    def split(self, p, cx):
        """p = 0 as an equivalent list of simpler equations (stride separation)"""
        syms = {a for m, _ in p.t for a, _ in m if len(m) >= 1 and a[0] == "sym"}
        prod = [a for a in syms if any(any(x == a for x, _ in m) and sum(e for _, e in m) >= 2 for m, _ in p.t)]
        prod.sort(key=lambda a: (a[1] not in cx.pos, a[1]))
        for S in prod:
            q, r = {}, {}
            for m, c in p.t:
                d = dict(m)
                if S in d:
                    d[S] -= 1
                    if d[S] == 0:
                        del d[S]
                    k = tuple(sorted(d.items(), key=lambda x: aid(x[0])))
                    q[k] = q.get(k, 0) + c
                else:
                    r[m] = c
            q, r = Poly(q), Poly(r)
            s = patom(S)
            if not cx.entails(ge0(s - 1)):
                continue
            for k in (0, 1, -1, 2, -2):
                m = r - k * s
                if cx.entails(ge0(s - 1 - m)) and cx.entails(ge0(s - 1 + m)):
                    return [q + k, m]
        return None

    def solve(self, eqs, binders, cx):
        """None: no solution.  else (solutions, leftover, stuck)"""
        self.tick()
        todo = list(eqs)
        sol, left, stuck = {}, [], []
        cur = cx
        n = 0
        while todo:
            n += 1
            if n > 60:
                break
            p = subst(todo.pop(0), sol)
            c = p.const()
            if c is not None:
                if c != 0:
                    return None
                continue
            if cur.refutes(eq0(p)):
                return None
            bs = [b for b in binders if b not in sol and mentions(p, b)]
            if not bs:
                sp = self.split(p, cur)
                if sp and len(sp) > 1:
                    todo += sp
                else:
                    left.append(p)
                continue
            if len(bs) == 1:
                q = p.coeff(("sym", bs[0]))
                if q and q[0].const() in (1, -1):
                    sol[bs[0]] = -q[1] * q[0].const()
                    cur = cur.plus(eq0(p))
                    todo += stuck
                    stuck = []
                    continue
            sp = self.split(p, cur)
            if sp:
                todo = sp + todo
                continue
            stuck.append(p)
        for p in list(stuck):
            # k*b + y = q with 0 <= y < k: quotient and remainder
            p0 = p
            p = subst(p, sol)
            bs = [b for b in binders if b not in sol and mentions(p, b)]
            for b in bs:
                q = p.coeff(("sym", b))
                k = q[0].const() if q else None
                if k is None or abs(k) < 2 or mentions(q[1], b):
                    continue
                sg = 1 if k > 0 else -1
                k = abs(k)
                # k*b = x - y
                rest = [o for o in bs if o != b]
                x = -q[1] * sg
                y = ZERO
                if len(rest) == 1:
                    z = x.coeff(("sym", rest[0]))
                    if not z or z[0].const() != -1:
                        continue
                    x, y = z[1], sym(rest[0])
                    if not (cur.entails(ge0(y)) and cur.entails(ge0(k - 1 - y))):
                        continue
                elif rest:
                    continue
                sol[b] = mk_div(x, P(k))
                if rest:
                    sol[rest[0]] = x - k * sol[b]
                else:
                    left.append(x - k * sol[b])
                stuck.remove(p0)
                sol = {a: subst(v, {n: w for n, w in sol.items() if n != a}) for a, v in sol.items()}
                break
        stuck = [subst(p, sol) for p in stuck]
        cur = cur.plus(*[eq0(p) for p in left + stuck])
        if cur.infeasible():
            return None
        return sol, left, stuck

    def rel(self, i, e, cx):
        if i == e:
            return T
        r = self.solve([i - e], [], cx)
        if r is None:
            return F
        return mk_and([eq0(p) for p in r[1] + r[2] if not cx.entails(eq0(p))])

    # ---------------------------------------------------------- writes
    def writes(self, S, base):
        """[(idx, binders, facts)] over-approximating the writes on top of base"""
        self.tick()
        if S == base:
            return []
        k = S[0]
        if k == "st":
            return [(S[2], [], [])] + self.writes(S[1], base)
        if k == "sel":
            out = []
            for i, b, f in self.writes(S[2], base):
                out.append((i, b, f + [S[1]]))
            for i, b, f in self.writes(S[3], base):
                out.append((i, b, f + [neg(S[1])]))
            return out
        if k == "cur":
            L = self.L(S[1])
            out = []
            for i, b, f in self.loop_writes(L, S[2]):
                x = fresh("x")
                m = {p: a for p, a in zip(L.params, S[3])}
                m[L.t] = sym(x)
                ren = {}
                nb = []
                for (nm) in b:
                    ren[nm] = sym(fresh("y"))
                    nb.append(as_atom(ren[nm])[1])
                m2 = dict(m)
                m2.update(ren)
                out.append((subst(i, m2), [x] + nb, [ge0(sym(x)), ge0(S[4] - 1 - sym(x))] + [subst(c, m2) for c in f]))
            return out + self.writes(self.inst_init(L, S), base)
        if k == "const":
            return [(None, [], [])]
        if k in ("init", "mx"):
            return []
        raise Undecided("array state " + k)

    def loop_writes(self, L, arr):
        key = ("lw", L.id, arr)
        if key not in self.memo:
            self.memo[key] = self.writes(self.body(L, arr), self.base(L, arr))
        return self.memo[key]

    def inst_init(self, L, S):
        if S[2] not in L.init:
            raise Undecided("array unknown to loop")
        return self.inst(L.init[S[2]], L, S[3], S[4])

    def iter_hits(self, L, S, e, cx, lo, hi):
        """which iterations in [lo,hi) of L may write e: (list of solutions, indep?)"""
        x = fresh("x")
        sols, indep = [], False
        for idx, bs, fs in self.loop_writes(L, S[2]):
            if idx is None:
                indep = True
                continue
            m = {p: a for p, a in zip(L.params, S[3])}
            m[L.t] = sym(x)
            ren = {b: sym(fresh("y")) for b in bs}
            m.update(ren)
            nb = [as_atom(v)[1] for v in ren.values()]
            c2 = cx.plus(ge0(sym(x) - lo), ge0(hi - 1 - sym(x)), *[subst(self.I.norm(c), m) for c in fs])
            ix = self.simp(subst(idx, m), c2)
            eqs = [ix - e]
            for c in fs:
                c = subst(self.I.norm(c), m)
                for y in (c[1] if c[0] == "and" else (c,)):
                    if y[0] == "eq0":
                        eqs.append(self.simp(y[1], c2))
            r = self.solve(eqs, [x] + nb, c2)
            if r is None:
                continue
            sol, left, stuck = r
            if x in sol:
                tau = subst(sol[x], sol)
                if any(mentions(tau, b) for b in nb):
                    tau2 = subst(tau, sol)
                    if any(mentions(tau2, b) for b in nb):
                        raise Undecided("write iteration not unique")
                    tau = tau2
                if tau not in sols:
                    sols.append(tau)
            elif any(mentions(p, x) for p in left + stuck) or any(mentions(v, x) for v in sol.values()):
                raise Undecided("write index not solvable: %s = %s" % (show(ix), show(e)))
            else:
                indep = True
        return sols, indep

    # ---------------------------------------------------------- reads
    @bounded
    def read(self, S, e, cx, top=False):
        self.tick()
        self.depth += 1
        if self.depth > 90:
            self.depth = 0
            raise Undecided("recurrence too deep")
        try:
            return self._read(S, e, cx, top)
        finally:
            self.depth -= 1

    def _read(self, S, e, cx, top=False):
        for st, ee in self.stops:
            if S == st and self.rel(e, ee, cx) == T:
                return patom(("rd", S, e))
        if not top and S in self.named:
            return patom(("rd", ("fin", self.named[S]), e))
        k = S[0]
        if k in ("init", "fin", "mx"):
            return patom(("rd", S, e))
        if k == "const":
            return self.resolve(S[2], cx)
        if k == "st":
            c = self.rel(self.simp(S[2], cx), e, cx)
            if c == T:
                return self.resolve(S[3], cx)
            if c == F:
                return self.read(S[1], e, cx)
            return self.ite(c, lambda x: self.resolve(S[3], x), lambda x: self.read(S[1], e, x), cx)
        if k == "sel":
            return self.ite(S[1], lambda x: self.read(S[2], e, x), lambda x: self.read(S[3], e, x), cx)
        if k == "cur":
            return self.read_cur(S, e, cx)
        raise Undecided("array state " + k)

    def ite(self, c, a, b, cx):
        c = self.resolve_c(c, cx)
        if cx.entails(c):
            return a(cx)
        if cx.entails(neg(c)):
            return b(cx)
        return mk_ite(c, a(cx.plus(c)), b(cx.plus(neg(c))))

    def read_cur(self, S, e, cx):
        L = self.L(S[1])
        arr, args, t = S[2], S[3], self.simp(S[4], cx)
        Bd, base = self.body(L, arr), self.base(L, arr)
        init = self.inst_init(L, S)
        if Bd == base:
            return self.read(init, e, cx)
        sols, indep = self.iter_hits(L, S, e, cx, ZERO, t)
        if not sols and not indep:
            return self.read(init, e, cx)
        if indep:
            return self.accumulate(L, S, e, cx, t, Bd, init)

        def valid(x):
            return mk_and([ge0(x), ge0(t - 1 - x)])

        def value(tau, x):
            x = x.plus(valid(tau), *self.loop_facts(L, args, tau))
            return self.read(self.inst(Bd, L, args, tau), e, x)

        def pick(ss, x):
            ss = [s for s in ss if not x.refutes(valid(s))]
            if not ss:
                return self.read(init, e, x)
            for s in ss:
                if all(o is s or x.entails(ge0(s - o)) for o in ss):
                    break
            else:
                c = ge0(ss[0] - ss[1])
                return mk_ite(c, pick(ss, x.plus(c)), pick(ss, x.plus(neg(c))))
            v = valid(s)
            rest = [o for o in ss if o is not s]
            return self.ite(v, lambda y: value(s, y), lambda y: pick(rest, y), x)

        return pick(sols, cx)

    def accumulate(self, L, S, e, cx, t, Bd, init):
        k = fresh("k")
        ks = sym(k)
        args, arr = S[3], S[2]
        st = ("cur", L.id, arr, args, ks)
        x = cx.plus(ge0(ks), ge0(t - 1 - ks), *self.loop_facts(L, args, ks))
        if (st, e) in self.stops:
            raise Undecided("nested accumulation")
        self.stops.append((st, e))
        try:
            v = self.read(self.inst(Bd, L, args, ks), e, x)
        finally:
            self.stops.pop()
        X = patom(("rd", st, e))
        v = pull(v, ("rd", st, e))
        d = v - X

        def has(p):
            return deep_has(p, lambda a: a[0] == "rd" and a[1] == st)
        v0 = lambda y: self.read(init, e, y)
        if not has(d):
            return v0(cx) + mk_sum(k, t, d)
        if not has(v):
            return self.ite(ge0(t - 1), lambda y: subst(v, {k: t - 1}), v0, cx)
        # v = c*X with constant factor, or an iteration-selected overwrite: not summarised
        raise Undecided("array recurrence %s" % show(v)[:200])

    # ---------------------------------------------------------- promotion to a named later state
    def peel(self, S, e, cx):
        """drop writes that cannot hit e"""
        while True:
            self.tick()
            if S in self.named or any(S == st for st, _ in self.stops):
                return S
            k = S[0]
            if k == "st":
                if self.rel(self.simp(S[2], cx), e, cx) == F:
                    S = S[1]
                    continue
                return S
            if k == "sel":
                c = self.resolve_c(S[1], cx)
                if cx.entails(c):
                    S = S[2]
                    continue
                if cx.entails(neg(c)):
                    S = S[3]
                    continue
                a, b = self.peel(S[2], e, cx), self.peel(S[3], e, cx)
                if a == b:
                    S = a
                    continue
                return S
            if k == "cur":
                L = self.L(S[1])
                t = self.simp(S[4], cx)
                if self.body(L, S[2]) != self.base(L, S[2]):
                    sols, indep = self.iter_hits(L, S, e, cx, ZERO, t)
                    if sols or indep:
                        return ("cur", S[1], S[2], S[3], t)
                S = self.inst_init(L, S)
                continue
            return S

    def never(self, ws, e, cx):
        for idx, bs, fs in ws:
            if idx is None:
                return False
            c2 = cx.plus(*[self.I.norm(c) for c in fs])
            if self.solve([self.simp(idx, c2) - e], bs, c2) is not None:
                return False
        return True

    def find(self, S, pred):
        """writes on top of the (unique) sub-state satisfying pred, or None"""
        if pred(S):
            return []
        k = S[0]
        if k == "st":
            r = self.find(S[1], pred)
            return None if r is None else r + [(S[2], [], [])]
        if k == "sel":
            out = None
            for x, g in ((S[2], S[1]), (S[3], neg(S[1]))):
                r = self.find(x, pred)
                if r is not None:
                    out = (out or []) + [(i, b, f + [g]) for i, b, f in r]
            return out
        if k == "cur":
            L = self.L(S[1])
            init = self.inst_init(L, S)
            r = self.find(init, pred)
            if r is None:
                return None
            return r + [w for w in self.writes(S, init)]
        return None

    def unchanged_until(self, S, e, cx, F_):
        """True when no write between state S (a loop state) and the named state F_ hits e"""
        if S == F_:
            return True
        if S[0] != "cur":
            r = self.find(F_, lambda x: x == S)
            return r is not None and self.never(r, e, cx)
        L = self.L(S[1])
        t = S[4]
        N = self.inst(L.N, L, S[3], t)
        sols, indep = self.iter_hits(L, S, e, cx, t, N)
        if sols or indep:
            return False
        if self.same_loop(F_, S):
            return True
        r = self.find(F_, lambda x: x[0] == "cur" and x[1] == L.id and x[3] == S[3])
        if r is not None:
            return self.never(r, e, cx)
        if L.parent is None:
            return False
        Lp = L.parent
        tp = S[3][-1]
        body = self.inst(self.body(Lp, S[2]), Lp, S[3][:-1], tp)
        r = self.find(body, lambda x: x[0] == "cur" and x[1] == L.id and x[3] == S[3])
        if r is None or not self.never(r, e, cx):
            return False
        return self.unchanged_until(("cur", Lp.id, S[2], S[3][:-1], tp + 1), e, cx, F_)

    def same_loop(self, F_, S):
        return F_[0] == "cur" and F_[1] == S[1] and F_[3] == S[3]

    # ---------------------------------------------------------- values
    @bounded
    def read_in(self, S, e, cx):
        """a read occurring inside a value"""
        if self.named:
            S = self.peel(S, e, cx)
            if S in self.named:
                return patom(("rd", ("fin", self.named[S]), e))
            if S[0] in ("init", "mx"):
                return patom(("rd", S, e))
            for F_, nm in self.named.items():
                try:
                    if self.unchanged_until(S, e, cx, F_):
                        return patom(("rd", ("fin", nm), e))
                except Undecided:
                    pass
        return self.read(S, e, cx)

    def simp(self, p, cx):
        """simplify integer atoms under the context (no array reads expected)"""
        if not isinstance(p, Poly):
            return p
        if not any(a[0] in ("ite", "fn", "sum") for a in p.atoms()):
            return p
        return self.resolve(p, cx)

    @bounded
    def resolve_c(self, c, cx):
        k = c[0]
        if k in ("T", "F"):
            return c
        if k in ("ge0", "eq0", "ne0"):
            p = self.simp(self.I.norm(c[1]), cx)
            return {"ge0": ge0, "eq0": eq0, "ne0": ne0}[k](p)
        if k == "not":
            return neg(self.resolve_c(c[1], cx))
        if k == "and":
            out = []
            for y in c[1]:
                y = self.resolve_c(y, cx)
                if cx.entails(y):
                    continue
                if cx.entails(neg(y)):
                    return F
                out.append(y)
            return mk_and(out)
        if k == "or":
            return neg(self.resolve_c(mk_and([neg(y) for y in c[1]]), cx))
        if k in ("le", "lt", "eq") and len(c) == 3:
            return (k, self.resolve(c[1], cx), self.resolve(c[2], cx))
        if k == "abort":
            return self.unreached(c, cx)
        return c

    def unreached(self, c, cx):
        """an early exit no iteration can take"""
        _, lid, n, args = c
        L = self.I.loops.get(lid)
        if L is None or n >= len(L.aborts) or L.N is None:
            return c
        rel, _ = L.aborts[n]
        t = fresh("u")
        m = dict(zip(L.params, args))
        m[L.t] = sym(t)
        N = self.I.norm(subst(self.I.norm(L.N), m))
        cx2 = cx.plus(ge0(sym(t)), ge0(N - 1 - sym(t)), *[self.I.norm(subst(self.I.norm(x), m)) for x in rel])
        return F if cx2.infeasible() else c

    @bounded
    def resolve(self, p, cx):
        """rewrite every array read into initial/named contents; decide gates"""
        p = self.I.norm(p)

        def f(a):
            k = a[0]
            if k == "rd":
                e = rebuild(a[2], f)
                return self.read_in(a[1], e, cx)
            if k == "ite":
                c = self.resolve_c(a[1], cx)
                if cx.entails(c):
                    return self.resolve(a[2], cx)
                if cx.entails(neg(c)):
                    return self.resolve(a[3], cx)
                return mk_ite(c, self.resolve(a[2], cx.plus(c)), self.resolve(a[3], cx.plus(neg(c))))
            if k == "sum":
                n = rebuild(a[2], f)
                nv = fresh("s")
                x = cx.plus(ge0(sym(nv)), ge0(n - 1 - sym(nv)))
                if cx.entails(ge0(-n)):
                    return ZERO
                body = self.resolve(subst(a[3], {a[1]: sym(nv)}), x)
                return mk_sum(nv, n, body)
            if k == "fn" and a[1] in ("max0", "cnt"):
                q = rebuild(a[2], f)
                if cx.entails(ge0(q)):
                    return q
                if cx.entails(ge0(-q)):
                    return ZERO
                return fn(a[1], q)
            if k == "fn" and a[1] == "min":
                x, y = rebuild(a[2], f), rebuild(a[3], f)
                if cx.entails(ge0(y - x)):
                    return x
                if cx.entails(ge0(x - y)):
                    return y
                return fn("min", x, y)
            if k == "fn" and a[1] in ("div", "rem"):
                x, y = rebuild(a[2], f), rebuild(a[3], f)
                r = self.divrem(x, y, cx)
                if r:
                    return r[0 if a[1] == "div" else 1]
                return fn(a[1], x, y)
            return None
        return rebuild(p, f)

    def divrem(self, x, y, cx):
        """(quotient, remainder) when x = y*q + m with 0 <= m < y is visible"""
        S = as_atom(y)
        if S is None:
            c = y.const()
            if c is None:
                for k in (0, 1, 2):
                    if cx.entails(ge0(x - k * y)) and cx.entails(ge0((k + 1) * y - 1 - x)):
                        return P(k), x - k * y
                return None
            if c <= 0:
                return None
            q, m = Poly({mm: k // c for mm, k in x.t if k % c == 0}), Poly({mm: k for mm, k in x.t if k % c != 0})
        else:
            q, m = {}, {}
            for mm, c in x.t:
                d = dict(mm)
                if S in d:
                    d[S] -= 1
                    if d[S] == 0:
                        del d[S]
                    q[tuple(sorted(d.items(), key=lambda z: aid(z[0])))] = c
                else:
                    m[mm] = c
            q, m = Poly(q), Poly(m)
        for k in (0, 1, -1):
            mm = m - k * y
            if cx.entails(ge0(mm)) and cx.entails(ge0(y - 1 - mm)):
                return q + k, mm
        return None


def deep_has(x, pred):
    if isinstance(x, Poly):
        return any(deep_has(a, pred) for m, _ in x.t for a, _ in m)
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and pred(x):
            return True
        return any(deep_has(y, pred) for y in x if isinstance(y, (tuple, Poly)))
    return False


# ------------------------------------------------------------------ canonical forms
def subterms(x):
    if isinstance(x, Poly):
        for m, _ in x.t:
            for a, _ in m:
                yield from subterms(a)
    elif isinstance(x, tuple):
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            if isinstance(y, (tuple, Poly)):
                yield from subterms(y)


def orient(n, v, body):
    """score of v's coefficient signs inside read indices"""
    sc = 0
    for a in subterms(body):
        if a[0] == "rd":
            for m, c in a[2].t:
                if any(x == ("sym", v) for x, _ in m):
                    sc += 1 if c > 0 else -1
    return sc


def canon(p, cx):
    """orientation of sums, absorption of peeled terms, gate decisions"""
    def f(a):
        if a[0] == "sum":
            n = rebuild(a[2], f)
            nv = fresh("c")
            body = canon(subst(a[3], {a[1]: sym(nv)}), cx.plus(ge0(sym(nv)), ge0(n - 1 - sym(nv))))
            if orient(n, nv, body) < 0:
                body = subst(body, {nv: n - 1 - sym(nv)})
            return mk_sum(nv, n, body)
        if a[0] == "ite":
            c = rtuple(a[1], f)
            if cx.entails(c):
                return rebuild(a[2], f)
            if cx.entails(neg(c)):
                return rebuild(a[3], f)
            return collapse(c, canon(a[2], cx.plus(c)), canon(a[3], cx.plus(neg(c))), cx)
        if a[0] == "fn" and a[1] in ("cnt", "max0"):
            q = rebuild(a[2], f)
            if cx.entails(ge0(q)):
                return q
            if cx.entails(ge0(-q)):
                return ZERO
            return fn(a[1], q)
        if a[0] == "fn" and a[1] in ("recip", "sqrt"):
            return rfn(a[1], rebuild(a[2], f))
        return None
    p = rebuild(p, f)
    return absorb(interleave(p, cx), cx)


def rfn(name, x):
    """recip of a product is the product of the reciprocals"""
    c = x.const()
    if name == "recip":
        if c == 1:
            return ONE
        if len(x.t) == 1 and abs(x.t[0][1]) == 1:
            r = P(x.t[0][1])
            for a, e in x.t[0][0]:
                if a[0] == "fn" and a[1] == "recip":
                    r = r * (a[2] ** e)
                else:
                    r = r * (fn("recip", patom(a)) ** e)
            return r
    return fn(name, x)


def absorb(p, cx):
    for _ in range(8):
        hit = False
        for m, c in p.t:
            sums = [a for a, e in m if a[0] == "sum" and e == 1]
            if len(sums) != 1:
                continue
            s = sums[0]
            if not cx.entails(ge0(s[2])):
                continue
            rest = Poly({tuple(x for x in m if x[0] != s): c})
            others = p - Poly({m: c})
            for at, shift in ((P(-1), True), (s[2], False)):
                g = rest * subst(s[3], {s[1]: at})
                if not g.t:
                    continue
                d = dict(others.t)
                if all(mm in d and (d[mm] == cc) for mm, cc in g.t):
                    nv = fresh("a")
                    b = subst(s[3], {s[1]: sym(nv) - 1 if shift else sym(nv)})
                    p = (others - g) + rest * mk_sum(nv, s[2] + 1, b)
                    hit = True
                    break
            if hit:
                break
        if not hit:
            break
    return p


def by_eqs(p, cx):
    """rewrite p with the equations known in cx (unit-coefficient symbols)"""
    m = {}
    quo = []
    for q in cx.eqs:
        q = subst(q, m)
        cands = []
        for a in q.atoms():
            if a[0] == "sym":
                k = q.coeff(a)
                if k and k[0].const() in (1, -1) and not mentions(k[1], a[1]):
                    cands.append((a[1] in cx.pos, a[1], -k[1] * k[0].const()))
        if cands:
            _, n, v = min(cands, key=lambda c: (c[0], c[1]))
            m = {k: subst(x, {n: v}) for k, x in m.items()}
            m[n] = v
        else:
            # k*quotient = value
            for a in q.atoms():
                if a[0] == "fn" and a[1] == "div":
                    k = q.coeff(a)
                    c = k[0].const() if k else None
                    if c and not deep_has(k[1], lambda z: z == a):
                        quo.append((a, abs(c), -k[1] if c > 0 else k[1]))
    p = subst(p, m)
    for a, k, v in quo:
        a = as_atom(subst(patom(a), m))
        if a is None:
            continue
        v = subst(v, m)

        def g(x):
            t = ZERO
            for mono, c in x.t:
                if c % k == 0 and any(y == a and e == 1 for y, e in mono):
                    t = t + Poly({tuple(y for y in mono if y[0] != a): c // k}) * v
                else:
                    t = t + Poly({mono: c})
            return t
        p = deep_poly(p, g)
    return p


def interleave(p, cx):
    """sum_q h(k*q) + sum_q h(k*q+1) + ... + sum_q h(k*q+k-1), all over q<n, is sum_{w<k*n} h(w)"""
    for _ in range(6):
        sums = []
        for m, c in p.t:
            s = [a for a, e in m if a[0] == "sum" and e == 1]
            if len(s) == 1:
                sums.append((m, c, s[0], tuple(x for x in m if x[0] != s[0])))
        hit = None
        for m, c, s, rest in sums:
            k = stride(s)
            if not k or k < 2 or k > 16:
                continue
            nv = fresh("w")
            h = scale(s[3], s[1], k, sym(nv))
            if h is None:
                continue
            # h belongs to the residue 0 candidate
            fam = [(m, c)]
            for j in range(1, k):
                want = mk_sum("z!", s[2], subst(h, {nv: k * sym("z!") + j}))
                a = as_atom(want)
                o = next(((m2, c2) for m2, c2, s2, r2 in sums if s2 == a and r2 == rest and c2 == c), None)
                if o is None:
                    break
                fam.append(o)
            if len(fam) == k:
                hit = fam, rest, c, mk_sum(nv, k * s[2], h)
                break
        if hit is None:
            return p
        fam, rest, c, new = hit
        d = dict(p.t)
        for m, _c in fam:
            del d[m]
        p = Poly(d) + Poly({rest: c}) * new
    return p


def stride(s):
    """greatest common divisor of the coefficients of a sum's variable"""
    from math import gcd
    g = 0
    v = ("sym", s[1])
    todo = [s[3]]
    while todo:
        x = todo.pop()
        if isinstance(x, Poly):
            for m, c in x.t:
                if any(a == v for a, _ in m):
                    g = gcd(g, abs(c))
                todo += [a for a, _ in m if a != v]
        elif isinstance(x, tuple):
            todo += [y for y in x if isinstance(y, (tuple, Poly))]
    return g


def scale(body, v, k, w):
    """h with h(k*v) = body"""
    bad = []
    V = ("sym", v)

    def g(x):
        t = ZERO
        for m, c in x.t:
            es = [e for a, e in m if a == V]
            if not es:
                t = t + Poly({m: c})
            elif es == [1] and c % k == 0:
                t = t + Poly({tuple(y for y in m if y[0] != V): c // k}) * w
            else:
                bad.append(m)
        return t
    # a coefficient of 1 outside indices (the variable as a value) does not scale
    r = deep_poly(body, g)
    return None if bad or mentions(r, v) else r


def collapse(c, a, b, cx):
    if a == b:
        return a
    x = cx.tight(neg(c))
    if equal(a, b, x, 1):
        return a
    x = cx.tight(c)
    if equal(a, b, x, 1):
        return b
    m = data_eq(c)
    if m and equal(rebuild(a, m), rebuild(b, m), x, 1):
        return b
    m = data_eq(neg(c))
    if m and equal(rebuild(a, m), rebuild(b, m), cx.tight(neg(c)), 1):
        return a
    return mk_ite(c, a, b)


def data_eq(c):
    """an equation between values, as a rewriting of one element"""
    if c[0] != "eq":
        return None
    d = c[1] - c[2]
    for a in sorted(d.atoms(), key=aid):
        if a[0] in ("rd", "sym"):
            k = d.coeff(a)
            if k and k[0].const() in (1, -1) and not deep_has(k[1], lambda x: x == a):
                v = -k[1] * k[0].const()
                return lambda z: v if z == a else None
    return None


def first_ite(p):
    for m, _ in p.t:
        for a, _ in m:
            if a[0] == "ite":
                return a
            if a[0] == "fn":
                for x in a[2:]:
                    if isinstance(x, Poly):
                        r = first_ite(x)
                        if r:
                            return r
    return None


def joined(d, cx):
    """d with sums over adjacent ranges joined into one, or None"""
    ts, hit = list(d.t), False
    while True:
        pair = None
        for i, (m, c) in enumerate(ts):
            s1 = [a for a, e in m if a[0] == "sum" and e == 1]
            if len(s1) != 1:
                continue
            s1 = s1[0]
            rest = tuple(x for x in m if x[0] != s1)
            for j, (m2, c2) in enumerate(ts):
                if j == i or c2 != c:
                    continue
                s2 = [a for a, e in m2 if a[0] == "sum" and e == 1]
                if len(s2) != 1 or s2[0][1] != s1[1] or tuple(x for x in m2 if x[0] != s2[0]) != rest:
                    continue
                s2 = s2[0]
                if canon(subst(s1[3], {s1[1]: sym(s1[1]) + s1[2]}), cx) == canon(s2[3], cx) and cx.entails(ge0(s1[2])) and cx.entails(ge0(s2[2])):
                    pair = i, j, Poly({rest: c}) * mk_sum(s1[1], s1[2] + s2[2], s1[3])
                    break
            if pair:
                break
        if not pair:
            break
        i, j, r = pair
        hit = True
        e = r
        for k, (m, c) in enumerate(ts):
            if k not in (i, j):
                e = e + Poly({m: c})
        ts = list(e.t)
    if not hit:
        return None
    e = ZERO
    for m, c in ts:
        e = e + Poly({m: c})
    return e


def equal(p, q, cx, depth=5):
    """p == q under cx"""
    if p == q:
        return True
    if cx.infeasible():
        return True
    if cx.eqs:
        p, q = by_eqs(p, cx), by_eqs(q, cx)
    p, q = canon(p, cx), canon(q, cx)
    if p == q:
        return True
    if depth <= 0:
        return False
    d = p - q
    a = first_ite(d)
    if a is None:
        j = joined(d, cx)
        return j is not None and canon(j, cx) == ZERO
    for c, br in ((a[1], a[2]), (neg(a[1]), a[3])):
        x = cx.tight(c)
        if x.infeasible():
            continue
        pp = rebuild(p, lambda z: br if z == a else None)
        qq = rebuild(q, lambda z: br if z == a else None)
        if not equal(canon(pp, x), canon(qq, x), x, depth - 1):
            return False
    return True
