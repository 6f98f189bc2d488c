"""Separating valuations: two closed forms are only reported as different when some valuation of
their symbols gives them different values (identity testing).

The structural comparison (normal forms) proves equality for all dimensions and contents.  When
it fails, the forms may still be equal in a way the normal forms do not see, so an alarm needs a
witness: dimensions, indices and element contents for which the value the analysis extracted
differs from the defined one.  Loop summaries (array states) are evaluated as the recurrences
they are.  No witness: the goal is undecided, not violated."""
from decimal import Decimal, Context, getcontext
import decimal
import itertools
import math
import random
import re
import time
from . import fm
from .fm import bounded
from .poly import *
from .interp import Undecided

CTX = Context(prec=90, Emax=10**9, Emin=-10**9)
EPS = Decimal(10) ** -45


class NoValue(Exception):
    """the term contains something that has no value here"""


class TooLarge(NoValue):
    """evaluation ran out of steps"""


class Skip(Exception):
    """this valuation is outside the domain (division by zero, negative root)"""


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = Decimal(a), Decimal(b)
    return abs(a - b) <= EPS * (1 + abs(a) + abs(b))


INTCALL = re.compile(r"call:(?:core|std)::num::.*?(?:impl )?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>?::(\w+)$")


def intfn(n, v):
    """integer functions of the standard library and narrowing casts (within the type's range)"""
    m = re.match(r"as_([ui])(8|16|32)$", n)
    if m:
        w = int(m.group(2))
        x = v[0] % 2 ** w
        return x - 2 ** w if m.group(1) == "i" and x >= 2 ** (w - 1) else x
    m = INTCALL.match(n)
    if not m:
        return None
    f, x = m.group(2), v[0]
    if f == "next_power_of_two":
        return 1 << max(0, x - 1).bit_length()
    if f == "isqrt":
        return math.isqrt(x)
    if f in ("ilog2", "count_ones", "trailing_zeros", "ilog10"):
        if f == "count_ones":
            return bin(x).count("1")
        if x <= 0:
            raise Skip()
        return {"ilog2": x.bit_length() - 1, "trailing_zeros": (x & -x).bit_length() - 1, "ilog10": len(str(x)) - 1}[f]
    if f == "abs_diff":
        return abs(x - v[1])
    if f == "div_ceil":
        return -(-x // v[1]) if v[1] else None
    if f == "next_multiple_of":
        return -(-x // v[1]) * v[1] if v[1] else None
    if f == "pow":
        return x ** v[1] if 0 <= v[1] < 64 else None
    if f in ("saturating_sub",):
        return max(0, x - v[1]) if m.group(1)[0] == "u" else x - v[1]
    if f in ("is_power_of_two",):
        return int(x > 0 and x & (x - 1) == 0)
    return None


ABORT = re.compile(r"abort(\d+)_(\d+)$")


def narrow(*xs):
    """widths of narrowing casts inside the terms"""
    out, seen = set(), set()

    def walk(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, Poly):
            for m, _ in x.t:
                for a, _ in m:
                    walk(a)
        elif isinstance(x, tuple):
            if len(x) > 1 and x[0] == "fn" and isinstance(x[1], str):
                m = re.match(r"as_[ui](8|16)$", x[1])
                if m:
                    out.add(int(m.group(1)))
            for y in x:
                if isinstance(y, (tuple, Poly)):
                    walk(y)
    for x in xs:
        walk(x)
    return out


class Ev:
    """value of a term for given symbols; data(array, index) gives initial contents"""

    def __init__(self, I, env, data, fuel=400000):
        self.I = I
        self.env = env
        self.data = data
        self.memo = {}
        self.fuel = fuel
        self.lens = {}

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise TooLarge("too large")
        if self.fuel & 4095 == 0 and fm.DEADLINE is not None and time.time() > fm.DEADLINE:
            raise NoValue("out of time")

    def p(self, x, env=None):
        env = self.env if env is None else env
        self.tick()
        r = 0
        for m, c in x.t:
            v = c
            for a, e in m:
                w = self.atom(a, env)
                v = v * w if e == 1 else v * w ** e
            r = r + v
        return r

    def n(self, x, env):
        v = self.p(x, env)
        if not isinstance(v, int):
            raise NoValue("index is not an integer")
        return v

    def atom(self, a, env):
        k = a[0]
        if k == "sym":
            v = env.get(a[1])
            if v is not None:
                return v
            if self.I is not None and a[1] in self.I.SOL:
                return self.p(self.I.norm(self.I.SOL[a[1]]), env)
            if self.I is not None and ABORT.match(a[1]):
                return self.exit(a[1], (), env)
            raise NoValue("symbol " + a[1])
        if k == "rd":
            return self.read(a[1], self.n(a[2], env), env)
        if k == "sum":
            n = self.n(a[2], env)
            r = 0
            e = dict(env)
            for i in range(max(0, n)):
                e[a[1]] = i
                r = r + self.p(a[3], e)
            return r
        if k == "ite":
            return self.p(a[2] if self.c(a[1], env) else a[3], env)
        if k == "fn":
            return self.fn(a, env)
        raise NoValue(k)

    def fn(self, a, env):
        n = a[1]
        if n == "carry" and self.I is not None and a[2] in self.I.REC:
            return self.carry(a, env)
        if n == "len":
            if a[2] in self.lens:
                return self.lens[a[2]]
            raise NoValue("length")
        if n == "lit":
            return Decimal(a[2])
        if not all(isinstance(y, Poly) for y in a[2:]):
            raise NoValue(str(n))
        if self.I is not None and ABORT.match(str(n)):
            return self.exit(n, a[2:], env)
        v = [self.p(y, env) for y in a[2:]]
        if n in ("max0", "cnt"):
            return max(0, v[0])
        if n == "min":
            return min(v)
        if n == "max":
            return max(v)
        if n in ("div", "rem", "fdiv"):
            if not all(isinstance(x, int) for x in v):
                raise NoValue(n)
            if v[1] == 0:
                raise Skip()
            q = v[0] // v[1] if n == "fdiv" or v[0] * v[1] >= 0 else -(abs(v[0]) // abs(v[1]))
            return v[0] - q * v[1] if n == "rem" else q
        if n == "recip":
            if same(v[0], 0):
                raise Skip()
            return 1 / Decimal(v[0])
        if n == "sqrt":
            d = Decimal(v[0])
            if d < 0:
                if same(d, 0):
                    return Decimal(0)
                raise Skip()
            return d.sqrt()
        if n == "abs":
            return abs(v[0])
        if all(isinstance(x, int) for x in v):
            r = intfn(str(n), v)
            if r is not None:
                return r
        raise NoValue(str(n))

    def carry(self, a, env):
        nm = a[2]
        v0, v1, t, params = self.I.REC[nm]
        e = {p: self.n(x, env) for p, x in zip(params, a[4:])}
        base = {k: v for k, v in env.items() if k in self.env}
        base.update(e)
        n = self.n(a[3], env)
        key = ("carry", nm, tuple(sorted(e.items())))
        vals = self.memo.setdefault(key, [])
        if not vals:
            vals.append(self.p(self.I.norm(v0), base))
        while len(vals) <= n:
            self.tick()
            x = dict(base)
            i = len(vals) - 1
            x[t] = i
            x[nm] = vals[i]
            vals.append(self.p(v1, x))
        return vals[n]

    def c(self, c, env):
        k = c[0]
        if k == "T":
            return True
        if k == "F":
            return False
        if k == "ge0":
            v = self.p(c[1], env)
            return v >= 0 or (not isinstance(v, int) and same(v, 0))
        if k == "eq0":
            return same(self.p(c[1], env), 0)
        if k == "ne0":
            return not same(self.p(c[1], env), 0)
        if k == "not":
            return not self.c(c[1], env)
        if k == "and":
            return all(self.c(x, env) for x in c[1])
        if k == "or":
            return any(self.c(x, env) for x in c[1])
        if k in ("le", "lt", "eq") and len(c) == 3:
            x, y = self.p(c[1], env), self.p(c[2], env)
            s = same(x, y)
            return s if k == "eq" else (s or x < y) if k == "le" else (not s and x < y)
        if k == "b" and len(c) == 5 and c[1] == "exists":
            e = dict(env)
            for i in range(max(0, self.n(c[3], env))):
                e[c[2]] = i
                if self.c(c[4], e):
                    return True
            return False
        if k == "abort":
            return self.abort(c, env) is not None
        raise NoValue("condition " + str(k))

    def exit(self, name, args, env):
        """counter at which an early exit is taken"""
        m = ABORT.match(name)
        v = self.abort(("abort", int(m.group(1)), int(m.group(2)), args), env)
        if v is None:
            raise Skip()
        return v

    def abort(self, c, env):
        """first iteration at which this exit is taken"""
        _, lid, n, args = c
        L = self.I.loops[lid]
        conds, _ = L.aborts[n]
        e = dict(env)
        for p, x in zip(L.params, args):
            e[p] = self.n(x, env)
        for i in range(max(0, self.n(self.I.norm(L.N), e))):
            e[L.t] = i
            if all(self.c(self.I.norm(x), e) for x in conds):
                return i
        return None

    # ------------------------------------------------------------ array states
    def read(self, S, i, env):
        """element i of a state; iterative along write chains, memoised on loop states"""
        self.tick()
        while True:
            k = S[0]
            if k == "init":
                return self.data(S[1], i)
            if k == "fin":
                return self.data(("fin", S[1]), i)
            if k == "const":
                return self.p(S[2], env)
            if k == "st":
                if self.n(S[2], env) == i:
                    return self.p(S[3], env)
                S = S[1]
                continue
            if k == "sel":
                S = S[2] if self.c(S[1], env) else S[3]
                continue
            if k == "cur":
                L = self.I.loops[S[1]]
                args = tuple(self.n(x, env) for x in S[3])
                t = self.n(S[4], env)
                return self.cur(L, S[2], args, t, i)
            raise NoValue("array " + str(k))

    def cur(self, L, arr, args, t, i):
        key = (L.id, arr, args, t, i)
        if key in self.memo:
            return self.memo[key]
        e = dict(self.env)
        for p, x in zip(L.params, args):
            e[p] = x
        base = ("cur", L.id, arr, tuple(sym(p) for p in L.params), sym(L.t))
        body = L.body.get(arr, base)
        if arr not in L.init:
            raise NoValue("array unknown to loop")
        if body == base:
            t = 0
        # walk back over iterations that leave the element alone
        todo = []
        v = None
        while True:
            k2 = (L.id, arr, args, t, i)
            if k2 in self.memo:
                v = self.memo[k2]
                break
            todo.append(k2)
            if t <= 0:
                v = self.read(L.init[arr], i, e)
                break
            e2 = dict(e)
            e2[L.t] = t - 1
            hit, w = self.top(body, base, i, e2)
            if hit:
                v = w
                break
            t -= 1
        for k2 in todo:
            self.memo[k2] = v
        return v

    def top(self, S, base, i, env):
        """value written by one iteration on top of base, if any"""
        while True:
            self.tick()
            if S == base:
                return False, None
            k = S[0]
            if k == "st":
                if self.n(S[2], env) == i:
                    return True, self.p(S[3], env)
                S = S[1]
            elif k == "sel":
                S = S[2] if self.c(S[1], env) else S[3]
            else:
                return True, self.read(S, i, env)


# ---------------------------------------------------------------- sampling
def consts(*xs):
    """integer constants in conditions, divisors and sum bounds: sizes around them are tried"""
    out = set()

    def walk(x, seen):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, Poly):
            c = dict(x.t).get((), 0)
            if isinstance(c, int) and 1 < abs(c) <= 40:
                out.add(abs(c))
            for m, k in x.t:
                if isinstance(k, int) and 1 < abs(k) <= 40:
                    out.add(abs(k))
                for a, _ in m:
                    walk(a, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, (tuple, Poly)):
                    walk(y, seen)
    seen = set()
    for x in xs:
        walk(x, seen)
    return out


def loop_consts(I):
    xs = []
    for L in I.loops.values():
        xs.append(L.N if L.N is not None else ONE)
        xs += list(L.body.values())
    return consts(*[x for x in xs if x is not None])


def dimsets(names, extra=(), widths=()):
    """small shapes, then one large dimension at a time"""
    if widths:
        for w in sorted(widths):
            for n in names:
                for k in (1, 2):
                    d = dict.fromkeys(names, k)
                    d[n] = 2 ** w + 1
                    yield d
    yield from dimsets_(names, extra)


def dimsets_(names, extra):
    small = [1, 2, 3, 4, 5]
    rnd = random.Random(7)
    out = [dict.fromkeys(names, 2), {n: 2 + i for i, n in enumerate(names)}, {n: 1 + len(names) - i for i, n in enumerate(names)}, dict.fromkeys(names, 1), dict.fromkeys(names, 3)]
    for n in names:
        d = dict.fromkeys(names, 2)
        d[n] = 1
        out.append(d)
    big = sorted({6, 7, 8, 9} | {x for c in extra for x in (c, c + 1, 2 * c + 1, 2 * c)} | {17})
    big = [x for x in big if x <= 41]
    for b in big:
        for n in names:
            d = {m: rnd.choice((1, 2, 3)) for m in names}
            d[n] = b
            out.append(d)
    for _ in range(12):
        out.append({n: rnd.choice(small) for n in names})
    return out


SCALES = (Decimal(1), Decimal(1), Decimal(2) ** -40, Decimal(2) ** -16, Decimal(2) ** 20, Decimal(2) ** -56)


def content(seed, mode):
    """generic contents (a function of array and index)"""
    memo = {}

    def f(arr, i):
        k = (arr, i)
        v = memo.get(k)
        if v is None:
            r = random.Random("%s/%s/%s/%s" % (seed, mode, arr, i))
            if mode == 1:
                v = Decimal(r.choice((0, 0, 0, 1, -1, 2)))
            elif mode == 2:
                v = Decimal(0)
            else:
                v = Decimal(r.randint(-40, 40) * 2 + 1) / 16
                if mode == 0 and isinstance(seed, int) and seed % 3 == 1:
                    v = v * r.choice(SCALES)           # thresholds: elements of all magnitudes
            memo[k] = v
        return v
    return f


def free_ints(facts, *xs):
    out = set()
    for f in list(facts) + list(xs):
        out |= set(free_syms(f))
    return out


def assignments(names, dims, ev, facts, limit, rnd, ks=()):
    """index assignments that satisfy the facts"""
    if not names:
        yield {}
        return
    top = max(list(dims.values()) + [3])
    vals = sorted(set(range(top + 1) if top <= 64 else list(range(4)) + list(range(top - 2, top + 1))) | (set() if dims else {x for k in ks for x in (k, k + 1, 2 * k + 1)}))
    if not dims:
        limit *= 8
    space = len(vals) ** len(names)
    if space <= 4 * limit:
        it = list(itertools.product(vals, repeat=len(names)))
        rnd.shuffle(it)
    else:
        it = (tuple(rnd.choice(vals) for _ in names) for _ in range(6 * limit))
    n = 0
    for tup in it:
        e = dict(zip(names, tup))
        e2 = dict(dims)
        e2.update(e)
        try:
            ok = all(ev.c(f, e2) for f in facts)
        except Skip:
            ok = False
        if ok:
            yield e
            n += 1
            if n >= limit:
                return


@bounded
def separate(got, want, facts, pos, I=None, lens=None, extra=(), data=None, budget=60, rel=same):
    """a valuation under which got(ev, env) != want(ev, env), None if none is found.
    got/want: terms, or functions of (ev, env).  Raises NoValue when the forms have no value."""
    old = decimal.getcontext()
    decimal.setcontext(CTX)
    try:
        return _separate(got, want, facts, pos, I, lens or {}, extra, data, budget, rel)
    except RecursionError:
        raise NoValue("too deep")
    except (decimal.InvalidOperation, decimal.Overflow, TypeError) as e:
        raise NoValue(str(e))
    finally:
        decimal.setcontext(old)


def _separate(got, want, facts, pos, I, lens, extra, data, budget, rel):
    terms = [x for x in (got, want) if isinstance(x, (Poly, tuple))]
    fs = free_ints(facts, *terms)
    for x in lens.values():
        fs |= set(free_syms(x))
    dims = sorted(n for n in fs if n in pos)
    idx = sorted(n for n in fs if n not in pos and n[:1] != "#")
    if I is not None:
        idx = [n for n in idx if n not in I.SOL]
    ks = set(extra) | consts(*terms)
    rnd = random.Random(11)
    tried = 0
    widths = narrow(*terms) | narrow(*facts) | (narrow(*[y for L in I.loops.values() for y in [L.N if L.N is not None else ONE] + list(L.body.values()) + list(L.init.values())], *I.SOL.values(), *I.REC.values()) if I is not None else set())
    if not dims:
        ks |= {2 ** w for w in widths}
        if not I or not I.loops:
            ks |= {8, 16, 32, 64, 100, 128, 256, 1024}
    for di, d in enumerate(dimsets(dims, ks, widths) if dims else [{}]):
        modes = (0, 1) if di < 8 else (0,)
        if di == 3:
            modes = (0, 1, 2)
        for mode in modes:
            dat = data(d, di, mode) if data else content(di, mode)
            for slack in ((0, 2) if di < 2 else (0,)):
                ev = Ev(I, dict(d), dat)
                for a, x in lens.items():
                    ev.lens[a] = ev.p(x, d) + slack
                for e in assignments(idx, d, ev, facts, 12, rnd, ks):
                    env = dict(d)
                    env.update(e)
                    ev.env = env
                    ev.memo = {} if idx else ev.memo
                    ev.fuel = max(ev.fuel, 60000 if 16 not in widths else 4000000)
                    tried += 1
                    try:
                        g = got(ev, env) if callable(got) else ev.p(got, env)
                        w = want(ev, env) if callable(want) else ev.p(want, env)
                    except Skip:
                        continue
                    except TooLarge:
                        if di < 8:
                            raise
                        break                      # the remaining shapes are smaller or as large
                    if not rel(g, w):
                        return dict(env=env, got=g, want=w, mode=mode)
    if not tried:
        raise NoValue("no valuation satisfies the facts")
    return None


def verdict(got, want, cx, soft="violated", I=None):
    """holds / violated (separated) / undecided for terms under a context"""
    from .arrays import equal
    if equal(got, want, cx):
        return "holds"
    if soft != "violated":
        return soft

    def lens(x):
        f = lambda a: sym("len:%s" % (a[2],)) if a[0] == "fn" and a[1] == "len" else None
        return rebuild(x, f) if isinstance(x, Poly) else rtuple(x, f)
    facts = [ge0(p) for p in cx.cs] + [ne0(p) for p in cx.nes] + list(cx.others)
    try:
        w = separate(lens(got), lens(want), [lens(f) for f in facts], cx.pos, I)
    except NoValue:
        return "undecided"
    return "violated" if w else "undecided"


def witness(w):
    def f(v):
        return "%.6g" % v if isinstance(v, Decimal) else str(v)
    return "at %s: %s instead of %s" % (", ".join("%s=%s" % kv for kv in sorted(w["env"].items())), f(w["got"]), f(w["want"]))


# ---------------------------------------------------------------- loops that never end
def endless(I, L, pend, exits, obs=(), rounds=2000):
    """dimensions for which no exit of a loop is taken in its first rounds, or a round fails, with the path to it feasible (text), or None.
    Only for loops whose exits depend on dimensions and their own counters."""
    if L.counted:
        return None
    try:
        return _endless(I, L, pend, exits, obs, rounds)
    except (NoValue, Skip, RecursionError, TypeError, decimal.InvalidOperation):
        return None


def _endless(I, L, pend, exits, obs, rounds):
    start = {nm: v0 for nm, (v0, v1) in pend.items()}
    step = {nm: v1 for nm, (v0, v1) in pend.items()}
    outs = [[I.normc(c) for c in x.cond] for _, x in exits]
    # counters the exits depend on
    obs = [([I.normc(c) for c in o["conds"]], I.norm(o["goal"]), o) for o in obs if o["loops"] and o["loops"][-1] == L.id]
    obs = [o for o in obs if all(isinstance(start.get(n, ZERO), Poly) and isinstance(step.get(n, ZERO), Poly) for n in free_ints([*o[0], o[1]]))]
    need, todo = set(), list(free_ints([c for o in outs for c in o] + [c for o in obs for c in [*o[0], o[1]]]))
    while todo:
        n = todo.pop()
        if n in start and n not in need:
            need.add(n)
            if not isinstance(start[n], Poly) or not isinstance(step[n], Poly):
                return None
            todo += list(free_ints([I.norm(step[n])]))
    cs = [I.normc(c) for c in list(I.facts) + list(L.conds)]
    ini = {n: I.norm(start[n]) for n in need}
    nxt = {n: I.norm(step[n]) for n in need}
    every = [c for o in outs for c in o] + cs + list(ini.values()) + list(nxt.values())
    lens = set()

    def seek(x):
        if isinstance(x, tuple):
            if len(x) > 2 and x[0] == "fn" and x[1] == "len":
                lens.add(x[2])
            for y in x:
                seek(y)
        elif isinstance(x, Poly):
            for m, _ in x.t:
                for a, _ in m:
                    seek(a)
    for x in every:
        seek(x)
    free = free_ints(every) - need - {L.t}
    low = {}                                   # declared sizes: len(a) >= p
    for c in cs:
        if c[0] == "ge0":
            for a in lens:
                q = c[1].coeff(("fn", "len", a))
                if q and q[0].const() == 1 and a not in low:
                    low[a] = -q[1]
    rest = sorted(lens - set(low), key=str)
    params = set(L.params)
    # positions of the enclosing iterators, which advance by one per turn
    pos = {n: (o.t, I.norm(o.enter[n])) for o in I.loopstack for n in o.enter if n in free and n.endswith(".pos")}
    dims = sorted(n for n in free if n not in params and n not in I.SOL and n not in pos)
    idx = [n for n in dims if n not in I.pos]                     # index arguments
    if any(n not in free_ints(list(I.facts)) for n in idx) or len(dims) > 4:
        return None
    big = [2 ** w + 1 for w in sorted(narrow(*[x for x in every if isinstance(x, (Poly, tuple))]))]
    outer = {o.t: o.N for o in I.loopstack if o.t in params}
    turns = [(0,) * len(L.params)]
    if 0 < len(L.params) < 4:
        turns += [x for x in itertools.product((0, 1, 2), repeat=len(L.params)) if any(x)]
    for d, turn in itertools.chain(itertools.product(itertools.product(*[(0, 1, 2) if n in idx else (1, 2, 3, 4, 5, 6) for n in dims]), turns), itertools.product(itertools.product([2] + big, repeat=len(dims)), turns[:1]) if big else ()):
        if big:
            rounds = max(rounds, 2 * max(d) + 2)
        env = dict(zip(dims, d))
        env.update(zip(L.params, turn))
        ev = Ev(I, env, content(0, 0))
        for o in I.loopstack:
            for n in o.enter:
                if n in pos:
                    env[n] = ev.p(pos[n][1], env) + env[pos[n][0]]
        if any(turn) and not all(v < ev.p(I.norm(outer[p]), env) for p, v in zip(L.params, turn) if outer.get(p) is not None):
            continue
        sizes = sorted({1, *d, *[a * b for a in d for b in d]})
        for ln in itertools.product(sizes, repeat=len(rest)) if len(rest) < 4 else ():
            ev.lens = dict(zip(rest, ln))
            for a, x in low.items():
                ev.lens[a] = ev.p(x, env)
            ev.fuel = 200000 if not big else 2000000
            if not all(ev.c(c, env) for c in cs):
                continue
            st = {n: ev.p(ini[n], env) for n in need}
            for t in range(rounds):
                e = dict(env)
                e.update(st)
                e[L.t] = t
                for c, g, o in obs:
                    if fails(ev, c, g, e):
                        return "fails (%s at %s), for example %s" % (o["kind"], o["span"], ", ".join("%s=%s" % kv for kv in sorted(env.items()) if kv[0] in dims) or "always")
                if any(all(ev.c(c, e) for c in o) for o in outs):
                    break
                st = {n: ev.p(nxt[n], e) for n in need}
            else:
                return "never ends, for example " + (", ".join("%s=%s" % kv for kv in sorted(env.items()) if kv[0] in dims) or "always")
            break
    return None


def fails(ev, conds, goal, e):
    """a check met under these conditions does not hold (unknown values: no)"""
    try:
        return all(ev.c(c, e) for c in conds) and not (ev.c(goal, e) if isinstance(goal, tuple) else ev.p(goal, e) >= 0)
    except (NoValue, Skip, KeyError):
        return False


# ---------------------------------------------------------------- matrix terms
class MEv(Ev):
    """values of matrix terms (sums of words of factors) for given matrices"""

    def __init__(self, I, env, mats, dims):
        Ev.__init__(self, I, env, self.elem0, 200000)
        self.mats = mats
        self.dims = dims
        self.mm = {}

    def elem0(self, arr, i):
        m = self.mats.get(arr)
        if m is None:
            raise NoValue("contents of %s" % (arr,))
        c = len(m[0])
        if not 0 <= i < c * len(m):
            raise NoValue("outside")
        return m[i // c][i % c]

    def read(self, S, i, env):
        if S[0] == "mx":
            d = S[2]
            dd = (self.n(d[0], env), self.n(d[1], env)) if d and d[0] is not None else None
            m = self.term(S[1], dd, env)
            c = len(m[0])
            if not 0 <= i < c * len(m):
                raise NoValue("outside")
            return m[i // c][i % c]
        return Ev.read(self, S, i, env)

    def c(self, c, env):
        if c[0] == "b" and c[1] == "pd":
            return True
        if c[0] == "not" and c[1][0] == "b" and c[1][1] == "pd":
            return True
        if c[0] == "position":
            return True
        return Ev.c(self, c, env)

    def fn(self, a, env):
        if a[1] == "len" and a[2] in self.mats:
            m = self.mats[a[2]]
            return len(m) * len(m[0])
        return Ev.fn(self, a, env)

    def fdim(self, f, env):
        if f[0] in ("v", "vt"):
            m = self.mats.get(f[1])
            if m is None:
                return None
            return (len(m), len(m[0])) if f[0] == "v" else (len(m[0]), len(m))
        if f[0] in ("inv", "chol", "cholt"):
            d = self.tdim(f[1], env)
            return d
        return None

    def tdim(self, t, env):
        r = c = None
        for w, k in t:
            if w:
                a, b = self.fdim(w[0], env), self.fdim(w[-1], env)
                if a:
                    r = a[0]
                if b:
                    c = b[1]
        return (r, c) if r and c else None

    def term(self, t, dims, env):
        key = (t, dims)
        if key in self.mm:
            return self.mm[key]
        d = dims or self.tdim(t, env)
        if d is None:
            raise NoValue("dimensions")
        R, C = d
        out = [[Decimal(0)] * C for _ in range(R)]
        for w, k in t:
            kv = self.p(k, env)
            if not w:
                if R != C:
                    raise NoValue("identity is not square")
                for i in range(R):
                    out[i][i] = out[i][i] + kv
                continue
            ds = [self.fdim(f, env) for f in w]
            cur = None
            for n, f in enumerate(w):
                r = len(cur[0]) if cur else R
                c = ds[n][1] if ds[n] else ds[n + 1][0] if n + 1 < len(w) and ds[n + 1] else C if n + 1 == len(w) else None
                if c is None:
                    raise NoValue("dimensions")
                m = self.factor(f, (r, c), env)
                if len(m) != r or len(m[0]) != c:
                    raise NoValue("dimensions differ")
                cur = m if cur is None else mul(cur, m)
            if len(cur) != R or len(cur[0]) != C:
                raise NoValue("dimensions differ")
            for i in range(R):
                for j in range(C):
                    out[i][j] = out[i][j] + kv * cur[i][j]
        self.mm[key] = out
        return out

    def factor(self, f, d, env):
        k = f[0]
        if k == "v":
            return self.mats[f[1]]
        if k == "vt":
            return tr(self.mats[f[1]])
        if k == "inv":
            return minv(self.term(f[1], d, env))
        if k in ("chol", "cholt"):
            a = self.term(f[1], d, env)
            m = chol(a)
            return m if k == "chol" else tr(m)
        if k in ("op", "opt") and f[1] == "invert_l":
            # what inversion does with something that is not a factor: inverse of L L' for its lower triangle
            a = self.term(f[2], d, env)
            a = [[x if j <= i else Decimal(0) for j, x in enumerate(r)] for i, r in enumerate(a)]
            return minv(mul(a, tr(a)))
        if k in ("op", "opt") and str(f[1]).startswith(("user:", "after:")):
            # an unknown function of its arguments
            if k == "opt":
                d = (d[1], d[0])
            args = []
            for x in (f[3] if len(f) > 3 and isinstance(f[3], tuple) else ()):
                if isinstance(x, tuple) and x and x[0] == "val":
                    args.append(str(x))
                else:
                    try:
                        args.append([[str(round(v, 30)) for v in row] for row in self.term(x, None, env)])
                    except TypeError:
                        raise NoValue("argument")
            r = random.Random("%s/%s/%s" % (f[1], f[2], args))
            m = [[Decimal(r.randint(-40, 40) * 2 + 1) / 16 for _ in range(d[1])] for _ in range(d[0])]
            return tr(m) if k == "opt" else m
        raise NoValue("factor %s" % (f[1],))


ARG = re.compile(r"^a\d+(\.\w+)*$")


class FEv(MEv):
    """values of whole terms: conditions and element-level states inside them included"""

    def __init__(self, I, env, mats, dims, rnd):
        MEv.__init__(self, I, env, mats, dims)
        self.rnd = rnd
        self.args = {}

    def atom(self, a, env):
        if a[0] == "sym" and a[1] not in env and a[1] not in self.I.SOL and ARG.match(a[1]):
            if a[1] not in self.args:
                r = self.rnd
                self.args[a[1]] = Decimal(r.choice((1, 1, 0, 2, 3, -1, 5))) / r.choice((1, 1, 2)) * r.choice(SCALES[:1] * 8 + (Decimal(2) ** -10, Decimal(2) ** -30, Decimal(2) ** 14, 1 - Decimal(2) ** -20))
            return self.args[a[1]]
        return MEv.atom(self, a, env)

    def c(self, c, env):
        if c[0] == "b" and c[1] == "pd":
            try:
                chol(self.term(c[2], None, env))
                return True
            except Skip:
                return False
        if c[0] in ("position",) or (c[0] == "not" and c[1][0] == "b"):
            return not self.c(c[1], env) if c[0] == "not" else True
        return MEv.c(self, c, env)

    def fdim(self, f, env):
        if f[0] in ("op", "opt") and f[1] == "raw":
            d = (self.n(f[3][0], env), self.n(f[3][1], env))
            return d if f[0] == "op" else d[::-1]
        if f[0] in ("op", "opt") and f[1] == "if":
            d = self.tdim(f[3], env) or self.tdim(f[4], env)
            return d if f[0] == "op" or not d else d[::-1]
        return MEv.fdim(self, f, env)

    def factor(self, f, d, env):
        if f[0] in ("op", "opt") and f[1] == "if":
            if f[0] == "opt":
                d = d[::-1]
            m = self.term(f[3] if self.c(f[2], env) else f[4], d, env)
            return tr(m) if f[0] == "opt" else m
        if f[0] in ("op", "opt") and f[1] == "raw":
            R, C = self.n(f[3][0], env), self.n(f[3][1], env)
            m = [[Decimal(self.read(f[2], i * C + j, env)) for j in range(C)] for i in range(R)]
            return tr(m) if f[0] == "opt" else m
        return MEv.factor(self, f, d, env)


def needs_pd(t):
    return any(f[0] in ("inv", "chol", "cholt") or (f[0] in ("op", "opt") and f[1] == "if") for w, _ in t for f in w)


@bounded
def fseparate(I, dims, assume, got, want, vary=None):
    """witness that got and want differ; with `vary`: that got changes with the contents of these arrays alone"""
    old = decimal.getcontext()
    decimal.setcontext(CTX)
    try:
        return _fseparate(I, dims, assume, got, want, vary)
    except (decimal.InvalidOperation, decimal.Overflow, TypeError, RecursionError, KeyError, IndexError) as e:
        raise NoValue(str(e))
    finally:
        decimal.setcontext(old)


def _fseparate(I, dims, assume, got, want, vary):
    names = sorted({s for d in dims.values() if d and d[0] is not None for x in d for s in free_syms(x)})
    rnd = random.Random(9)
    pd = bool(assume) or needs_pd(got) or needs_pd(want)
    big = sorted(x for x in consts(got, want) | loop_consts(I) if x <= 12)
    for trial in range(90):
        env = {n: (1 if trial % 7 == 3 else rnd.choice((1, 2, 2, 3))) for n in names}
        if trial % 5 == 4 and names:
            k = rnd.choice([4, 5] + big + [x + 1 for x in big])
            env[rnd.choice(names)] = k
        zero = {a for a in sorted(dims, key=str) if rnd.random() < 0.35} if trial % 3 == 2 else set()
        mats = {}
        for a in sorted(dims, key=str):
            d = dims[a]
            if not d or d[0] is None:
                continue
            try:
                R, C = (int(Ev(I, env, None).p(x)) for x in d)
            except NoValue:
                continue
            if R <= 0 or C <= 0:
                continue
            g = (lambda: Decimal(rnd.choice((0, 1, -1, 2)))) if trial % 4 == 3 else (lambda: Decimal(rnd.randint(-40, 40) * 2 + 1) / 16)
            m = [[Decimal(0) if a in zero else g() for _ in range(C)] for _ in range(R)]
            sc = rnd.choice(SCALES) if trial % 5 == 2 else 1
            if pd and R == C and a not in zero:
                for i in range(R):
                    for j in range(i):
                        m[i][j] = m[j][i]
                    m[i][i] = abs(m[i][i]) + 4 * R
            mats[a] = m if sc == 1 else [[x * sc for x in r] for r in m]
        variants = [mats]
        if vary:
            m2 = dict(mats)
            for a in vary:
                if a in mats:
                    m2[a] = [[x + Decimal(rnd.randint(1, 90)) / 16 for x in r] for r in mats[a]]
            variants.append(m2)
        seed = rnd.random()
        try:
            vals = []
            for i, (m, t) in enumerate(zip(variants * (1 if vary else 2), (got, want))):
                ev = FEv(I, env, m, dims, random.Random(seed))
                ok = all(ev.c(l, env) for l in assume)
                d = ev.tdim(got, env) or ev.tdim(want, env)
                if not ok:
                    raise Skip()
                vals.append(ev.term(t, d, env))
        except Skip:
            continue
        for x, y in zip(*vals):
            for u, v in zip(x, y):
                if not same(u, v):
                    e = dict(env)
                    e.update(ev.args)
                    return dict(env=e, got=u, want=v)
    return None


def tr(m):
    return [list(x) for x in zip(*m)]


def mul(a, b):
    if len(a[0]) != len(b):
        raise NoValue("dimensions differ")
    return [[sum((x * y for x, y in zip(r, c)), Decimal(0)) for c in zip(*b)] for r in a]


def minv(a):
    n = len(a)
    if n != len(a[0]):
        raise NoValue("not square")
    m = [list(map(Decimal, r)) + [Decimal(int(i == j)) for j in range(n)] for i, r in enumerate(a)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(m[k][i]))
        if same(m[p][i], 0):
            raise Skip()
        m[i], m[p] = m[p], m[i]
        d = m[i][i]
        m[i] = [x / d for x in m[i]]
        for k in range(n):
            if k != i and m[k][i] != 0:
                q = m[k][i]
                m[k] = [x - q * y for x, y in zip(m[k], m[i])]
    return [r[n:] for r in m]


def chol(a):
    n = len(a)
    L = [[Decimal(0)] * n for _ in range(n)]
    for j in range(n):
        for i in range(j, n):
            v = a[j][i] - sum((L[i][z] * L[j][z] for z in range(j)), Decimal(0))
            if i == j:
                if v <= 0 or same(v, 0):
                    raise Skip()
                L[i][i] = v.sqrt()
            else:
                L[i][j] = v / L[j][j]
    return L


@bounded
def mseparate(I, dims, lits, got, want, need=3):
    """(witness or None, number of valuations that satisfy the conditions)"""
    old = decimal.getcontext()
    decimal.setcontext(CTX)
    try:
        return _mseparate(I, dims, lits, got, want, need)
    except (decimal.InvalidOperation, decimal.Overflow, TypeError, RecursionError, KeyError) as e:
        raise NoValue(str(e))
    finally:
        decimal.setcontext(old)


def _mseparate(I, dims, lits, got, want, need):
    names = sorted({s for d in dims.values() if d and d[0] is not None for x in d for s in free_syms(x)})
    others = sorted({s for l in lits for s in free_syms(l) if s[:1] != "#"} | {s for t in (got, want) for s in tsyms(t)} - set(names))
    others = [s for s in others if s not in names and s not in I.SOL]
    rnd = random.Random(5)
    ok = 0
    for trial in range(160):
        env = {n: (1 if trial % 7 == 3 else rnd.choice((1, 2, 2, 3))) for n in names}
        for s in others:
            env[s] = Decimal(rnd.choice((1, 0, 2, 3, -1))) / rnd.choice((1, 1, 2)) * (rnd.choice(SCALES) if trial % 6 == 5 else 1) if s not in I.pos else rnd.choice((1, 2, 3))
        mats = {}
        zero = {a for a in dims if rnd.random() < 0.35} if trial % 3 else set()
        mode = trial % 4
        for a in sorted(dims, key=str):
            d = dims[a]
            if not d or d[0] is None:
                continue
            try:
                R, C = (int(Ev(I, env, None).p(x)) for x in d)
            except NoValue:
                continue
            if R <= 0 or C <= 0:
                continue
            sc = rnd.choice(SCALES) if mode == 1 else 1
            mats[a] = [[Decimal(0) if a in zero else Decimal(rnd.choice((0, 1, -1, 2))) if mode == 3 else Decimal(rnd.randint(-40, 40) * 2 + 1) / 16 * sc for _ in range(C)] for _ in range(R)]
        ev = MEv(I, env, mats, dims)
        try:
            if not all(ev.c(l, env) for l in lits):
                continue
            d = ev.tdim(got, env) or ev.tdim(want, env)
            a, b = ev.term(got, d, env), ev.term(want, d, env)
        except Skip:
            continue
        ok += 1
        for x, y in zip(a, b):
            for u, v in zip(x, y):
                if not same(u, v):
                    return dict(env=env, got=u, want=v), ok
        if ok >= 40:
            break
    return None, ok


def tsyms(t):
    out = set()
    for w, c in t:
        out |= set(free_syms(c))
        for f in w:
            if f[0] in ("inv", "chol", "cholt"):
                out |= tsyms(f[1])
    return {s for s in out if s[:1] != "#"}
